//! Replay files, known findings and evidence.
use crate::check::Viol;
use crate::jsonx::*;
use crate::{execute, Ctx, Outcome};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::time::Duration;

#[derive(Default)]
pub struct Totals {
    pub runs: u64,
    pub steps: u64,
    pub sim_ms: u64,
    pub count: BTreeMap<&'static str, u64>,
    pub shapes: HashSet<u64>,
    pub orders: HashSet<u64>,
    pub nondet: u64,
    pub repeats: u64,
    pub other: u64,
    pub known: BTreeMap<usize, u64>,
    pub samples: BTreeMap<u64, Value>,
    pub per_ver: BTreeMap<String, u64>,
}
impl Totals {
    pub fn add(&mut self, plan: &Value, o: &Outcome) {
        self.runs += 1;
        self.steps += o.steps;
        self.sim_ms += o.sim_ms;
        for (k, v) in &o.count {
            *self.count.entry(k).or_insert(0) += v;
        }
        self.shapes.extend(&o.shapes);
        self.orders.insert(o.order);
        let name = |i: u64| crate::cat::NAMES[i as usize].to_string();
        let mut vs: Vec<String> = match plan["vers"].as_array() {
            Some(a) => a.iter().filter_map(Value::as_u64).map(name).collect(),
            None => plan["ver"].as_u64().map(name).into_iter().collect(),
        };
        vs.sort();
        vs.dedup();
        for v in vs {
            *self.per_ver.entry(v).or_insert(0) += 1;
        }
    }
    pub fn sample(&mut self, i: u64, plan: &Value, o: &Outcome) {
        let mut p = plan.clone();
        if let Some(a) = p["ops"].as_array_mut() {
            a.truncate(2);
        }
        if let Some(a) = p["steps"].as_array_mut() {
            a.truncate(3);
        }
        let t = p.to_string();
        let p = if t.len() > 6000 { json!(t.chars().take(6000).collect::<String>()) } else { p };
        self.samples.insert(i, json!({"run": i, "plan_head": p, "events": o.steps, "simulated_ms": o.sim_ms, "faults_fired": o.count, "record_hash": format!("{:016x}", o.hash)}));
    }
    pub fn merge(&mut self, b: Totals) {
        self.runs += b.runs;
        self.steps += b.steps;
        self.sim_ms += b.sim_ms;
        self.nondet += b.nondet;
        self.other += b.other;
        for (k, v) in b.count {
            *self.count.entry(k).or_insert(0) += v;
        }
        for (k, v) in b.known {
            *self.known.entry(k).or_insert(0) += v;
        }
        for (k, v) in b.per_ver {
            *self.per_ver.entry(k).or_insert(0) += v;
        }
        self.shapes.extend(b.shapes);
        self.orders.extend(b.orders);
        self.samples.extend(b.samples);
    }
}

pub struct Known {
    pub sig: String,
    pub what: String,
}
impl Known {
    /// `*` in a listed signature stands for any text.
    pub fn matches(&self, x: &Viol) -> bool {
        fn go(p: &[&str], s: &str) -> bool {
            match p {
                [] => s.is_empty(),
                [last] => s.ends_with(last),
                [first, rest @ ..] => (0..=s.len()).filter(|i| s.is_char_boundary(*i)).any(|i| s[i..].starts_with(first) && go(rest, &s[i + first.len()..])),
            }
        }
        let parts: Vec<&str> = self.sig.split('*').collect();
        if parts.len() == 1 {
            return self.sig == x.sig;
        }
        x.sig.starts_with(parts[0]) && go(&parts[1..], &x.sig[parts[0].len()..])
    }
}

/// Lines `finding: property=<id> sig=<signature> <what fails>` of /verif/known-findings.txt.
pub fn known(root: &str, prop: &str) -> Vec<Known> {
    let text = std::fs::read_to_string(format!("{root}/known-findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("finding: property="))
        .filter_map(|l| {
            let (id, rest) = l.split_once(' ')?;
            let (sig, what) = rest.strip_prefix("sig=")?.split_once(' ')?;
            (id == prop).then(|| Known { sig: sig.replace("%20", " "), what: what.to_string() })
        })
        .collect()
}

pub fn write_replay(ctx: &Ctx, prop: &str, seed: u64, plan: &Value, v: &Viol, before: &[Value]) -> String {
    let o = crate::fresh::outcome(ctx, before, plan, &v.sig, true, Duration::from_secs(100)).unwrap_or_default();
    let hit = o["hit"] == json!(true);
    let x = if hit { st(&o, "text").to_string() } else { v.text.clone() };
    let dir = format!("{}/replays", ctx.root);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{prop}-{seed:016x}.json");
    let mut r = json!({"property": prop, "seed": seed, "violation": {"signature": v.sig, "text": x}, "record_hash": o["hash"], "plan": plan, "trace": o["trace"]});
    if !before.is_empty() {
        r["before"] = json!(before);
    }
    if !hit {
        r["note"] = json!("met during the search, after many other runs in the same process; this run alone does not show it");
        println!("this run alone does not show it");
    }
    std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).expect("writing the replay file");
    println!("minimised: {}{}", plan["minimised"], if before.is_empty() { String::new() } else { format!(", after {} other runs", before.len()) });
    println!("violation: {x}");
    path
}

pub fn replay(ctx: &Ctx, file: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("replay JSON");
    if st(&v["violation"], "signature").starts_with("died|") {
        return crate::guard::replay(ctx, &v, file);
    }
    let o = crate::fresh::here(ctx, &json!({"before": v["before"], "plan": v["plan"], "sig": v["violation"]["signature"], "trace": true}));
    for l in o["trace"].as_array().into_iter().flatten() {
        println!("{}", l.as_str().unwrap_or(""));
    }
    println!("record hash {} (recorded {})", st(&o, "hash"), st(&v, "record_hash"));
    if o["hit"] == json!(true) {
        println!("reproduced: {}", st(&o, "text"));
        println!("VIOLATION property={} replay={file}", st(&v, "property"));
        1
    } else {
        println!("not reproduced on the current tree");
        0
    }
}

#[allow(clippy::too_many_arguments)]
pub fn evidence(ctx: &Ctx, prop: &str, tier: &str, seed: u64, t: &Totals, planned: u64, wall: f64, violations: u64) {
    let faults: BTreeMap<&str, u64> = t.count.iter().filter(|(k, _)| FAULTS.contains(k)).map(|(k, v)| (*k, *v)).collect();
    let work: BTreeMap<&str, u64> = t.count.iter().filter(|(k, _)| !FAULTS.contains(k)).map(|(k, v)| (*k, *v)).collect();
    let per_h = if wall > 0.0 { t.runs as f64 / wall * 3600.0 } else { 0.0 };
    let v = json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.orders.len(),
            "rule": "one evaluation is one simulated run, made from one seed: a plan (nodes, versions, operations with bodies generated from the specification's schemas, faults by name) executed to rest under the simulated scheduler. Two runs are distinct if the sequence of scheduler decisions (which event happened at which node, in which order, with which fault) differs; the count is the number of different sequences, each with at least one frame through the library.",
            "samples": t.samples.values().collect::<Vec<_>>(),
            "runs_planned": planned,
            "runs_per_hour": per_h.round(),
            "seeds_per_hour": per_h.round(),
            "scheduler_events": t.steps,
            "simulated_time_s": t.sim_ms as f64 / 1000.0,
            "faults_injected": faults,
            "work_done": work,
            "distinct_interleavings": t.orders.len(),
            "distinct_message_shapes": t.shapes.len(),
            "distinct_message_shapes_measure": "structural fingerprint (member names and JSON types) per version and message type",
            "runs_per_protocol_version": t.per_ver,
            "determinism": {"runs_repeated": t.repeats, "runs_that_differed": t.nondet, "measure": "hash over every event, time and frame of the run"},
            "observations_of_other_properties": t.other,
            "known_findings_met": t.known.values().sum::<u64>(),
            "real_components": ["rust-mcp-schema, all six protocol versions, built from /repo's working tree (decode, classification, accessors, construction, encode, capability gates, flow helpers)", "serde, serde_json"],
            "stub_components": ["network links, clock, timers, disks and byte streams (simulated)", "client, server and relay application logic (simulator)"]
        },
        "assumptions": ["valid messages are those the specification's own JSON Schemas (as quoted in the repository) allow; optional empty lists and null optional members count as absent", "numbers are 64-bit integers or short exact decimals", "the library's hash-map iteration order is masked by comparing JSON values"],
        "wall_s": wall, "violations": violations
    });
    let dir = format!("{}/evidence", ctx.root);
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{prop}.json"), serde_json::to_string_pretty(&v).unwrap()).expect("writing evidence");
}

const FAULTS: &[&str] = &[
    "loss", "duplication", "corruption", "delay_spike", "partition", "partition_drop", "heal", "crash", "restart", "lost_to_crashed_node", "clock_skew_timer",
    "damaged_frame_received", "upgrade", "short_write", "short_read", "interrupted", "io_error", "disk_full", "early_eof", "torn_record", "lost_tail", "bit_rot", "reconnect", "zero_write", "lost_state",
];
