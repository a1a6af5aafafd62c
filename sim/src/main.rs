//! vp-sim: deterministic simulation of MCP peers that use rust-mcp-schema.
//!   vp-sim check <property> <tier> <seed>      search
//!   vp-sim replay <file>                       run one recorded plan again
mod assemble;
mod batch;
mod cap;
mod cat;
mod check;
mod flow;
mod gen;
mod fresh;
mod guard;
mod interest;
mod journal;
mod jsonx;
mod lib_so;
mod minimize;
mod mixed;
mod nego;
mod net;
mod report;
mod rng;
mod schema;
mod session;
mod stream;
mod task;
mod world;

use check::Viol;
use serde_json::{Map, Value};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub struct Ctx {
    pub vers: Vec<cat::Ver>,
    pub root: String,
}

pub struct Outcome {
    pub viols: Vec<Viol>,
    pub fired: Map<String, Value>,
    pub hash: u64,
    pub order: u64,
    pub steps: u64,
    pub sim_ms: u64,
    pub count: BTreeMap<&'static str, u64>,
    pub shapes: HashSet<u64>,
    pub trace: Vec<String>,
}
impl Outcome {
    pub fn of<E>(w: world::World<E>) -> Outcome {
        Outcome { viols: w.viols, fired: w.fired, hash: w.hash, order: w.order, steps: w.steps, sim_ms: w.now, count: w.count, shapes: w.shapes, trace: w.trace.unwrap_or_default() }
    }
}

pub fn plan_for(ctx: &Ctx, prop: &str, seed: u64) -> Value {
    match prop {
        "C15" => assemble::plan(ctx, seed, prop),
        "C09" => stream::plan(ctx, seed, prop),
        "C10" => cap::plan(ctx, seed, prop),
        "C07" => flow::plan(ctx, seed, prop),
        "C13" => task::plan(ctx, seed, prop),
        "C16" => interest::plan(ctx, seed, prop),
        "C11" => mixed::plan(ctx, seed, prop),
        "C12" => journal::plan(ctx, seed, prop),
        "C08" => batch::plan(ctx, seed, prop),
        _ => gen::session(ctx, seed, prop),
    }
}

/// Execute a plan. What the simulator cannot make sense of is a finding too: its own code never fails on the library as it is.
pub fn execute(ctx: &Ctx, plan: &Value, trace: bool) -> Outcome {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| execute_plan(ctx, plan, trace))) {
        Ok(o) => o,
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            let mut o = Outcome { viols: vec![], fired: Map::new(), hash: 0, order: 0, steps: 1, sim_ms: 0, count: BTreeMap::new(), shapes: HashSet::new(), trace: vec![] };
            o.viols.push(Viol { class: "panic", sig: format!("unusable|{}", m.chars().take(60).collect::<String>()), text: format!("the library's answers cannot be made sense of: {m}") });
            o
        }
    }
}

fn execute_plan(ctx: &Ctx, plan: &Value, trace: bool) -> Outcome {
    let mut o = match jsonx::st(plan, "scn") {
        "assembly" => assemble::run(ctx, plan, trace),
        "stream" => stream::run(ctx, plan, trace),
        "cap" => cap::run(ctx, plan, trace),
        "flow" => flow::run(ctx, plan, trace),
        "task" => task::run(ctx, plan, trace),
        "interest" => interest::run(ctx, plan, trace),
        "nego" => nego::run(ctx, plan, trace),
        "journal" => journal::run(ctx, plan, trace),
        "batch" => batch::run(ctx, plan, trace),
        _ => session::Session::run(ctx, plan, trace),
    };
    if o.shapes.is_empty() {
        let ver = plan["vers"][0].as_u64().unwrap_or(0);
        for x in plan["ops"].as_array().into_iter().flatten() {
            if x.get("frame").is_some() {
                o.shapes.insert(cat::shape(&x["frame"], rng::hash_str(ver, jsonx::st(x, "ty"))));
            }
        }
    }
    o
}

/// Which observations break which property.
pub fn relevant(prop: &str, x: &Viol) -> bool {
    let s = &x.sig;
    let has = |k: &str| s.contains(k);
    match prop {
        "C01" => matches!(x.class, "enc" | "refused" | "panic" | "id"),
        "C02" => matches!(x.class, "class" | "acc" | "as" | "refused" | "panic" | "id"),
        "C03" => matches!(x.class, "damage" | "panic" | "refused"),
        "C04" => matches!(x.class, "reply" | "live" | "id" | "as" | "refused" | "panic") || (x.class == "acc" && has("request id")) || (x.class == "enc" && (has("|id|") || has("requestId") || has("progressToken"))),
        "C05" => x.class == "fail" || x.class == "panic" || (matches!(x.class, "enc" | "refused" | "class" | "live" | "id" | "as" | "reply") && (has("error") || has("CallToolResult"))),
        "C06" => matches!(x.class, "class" | "panic") || (matches!(x.class, "enc" | "refused" | "id" | "live") && (has("custom") || has("x_") || has("com.example") || has("_meta"))) || (x.class == "refused" || x.class == "live"),
        "C14" => x.class == "meta" || x.class == "panic" || x.class == "refused" || (x.class == "acc" && (has("|meta") || has("|trace"))) || (x.class == "enc" && has("|request|")),
        "C09" => matches!(x.class, "stream" | "panic"),
        "C10" => matches!(x.class, "cap" | "panic"),
        "C12" => matches!(x.class, "journal" | "line" | "panic"),
        "C08" => matches!(x.class, "batch" | "panic"),
        _ => true,
    }
}

fn runs_for(prop: &str, tier: &str) -> u64 {
    let quick = match prop {
        "C03" => 42000,
        "C04" => 24000,
        "C08" => 60000,
        "C09" => 200000,
        "C10" => 40000,
        "C12" => 60000,
        "C07" => 40000,
        "C11" => 100000,
        "C13" => 60000,
        "C16" => 120000,
        "C15" => 80000,
        "C01" | "C02" | "C05" | "C06" | "C14" => 36000,
        _ => 12000,
    };
    if tier == "thorough" { quick * 20 } else { quick }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let root = std::env::var("VP_ROOT").unwrap_or_else(|_| "/verif".into());
    let libs = std::env::var("VP_LIBS").unwrap_or_else(|_| format!("{root}/target"));
    let mut vers = vec![];
    for i in 0..6 {
        match cat::Ver::load(i, &libs) {
            Ok(v) => vers.push(v),
            Err(e) => {
                eprintln!("cannot load the library under test: {e}");
                std::process::exit(3);
            }
        }
    }
    let ctx = Ctx { vers, root };
    match a.get(1).map(String::as_str) {
        Some("check") => {
            let seed = a.get(4).and_then(|s| s.parse().ok()).unwrap_or(1);
            let worker = std::env::var("VP_WORKER").is_ok() || std::env::var("VP_INLINE").is_ok();
            std::process::exit(if worker { search(&ctx, &a[2], &a[3], seed) } else { guard::check(&ctx, &a[2], &a[3], seed) });
        }
        Some("replay") => std::process::exit(report::replay(&ctx, &a[2])),
        // try: execute a plan that is expected to end this process
        Some("seq") => fresh::child(&ctx, &a[2], &a[3]),
        Some("try") => {
            world::STREAM.store(true, Ordering::Relaxed);
            let plan: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("plan")).expect("plan JSON");
            execute(&ctx, &plan, true);
        }
        Some("plan") => println!("{}", serde_json::to_string_pretty(&plan_for(&ctx, &a[2], a[3].parse().unwrap())).unwrap()),
        // call: one adapter call (development aid)
        Some("call") => println!("{}", ctx.vers[a[2].parse::<usize>().unwrap()].lib.call(&serde_json::from_str(&a[3]).unwrap())),
        // explain: minimise one violation of one seed (development aid)
        Some("explain") => {
            let plan = plan_for(&ctx, &a[2], a[3].parse().unwrap());
            let small = minimize::minimize(&ctx, &plan, &a[4]);
            println!("{small}");
            let o = execute(&ctx, &small, true);
            for t in o.trace { println!("  {t}"); }
            for x in o.viols { println!("{} :: {}", x.sig, x.text); }
        }
        // survey: print every distinct violation signature with one example (development aid)
        Some("survey") => {
            let n: u64 = a[3].parse().unwrap();
            let seen: Mutex<BTreeMap<String, (u64, u64, String)>> = Mutex::new(BTreeMap::new());
            let next = AtomicU64::new(0);
            let t = Instant::now();
            std::thread::scope(|s| {
                for _ in 0..8 {
                    s.spawn(|| loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n {
                            break;
                        }
                        let plan = plan_for(&ctx, &a[2], i);
                        let o = execute(&ctx, &plan, false);
                        for x in o.viols {
                            if relevant(&a[2], &x) || a.get(4).is_some() {
                                let mut m = seen.lock().unwrap();
                                let e = m.entry(x.sig.clone()).or_insert((0, i, x.text));
                                e.0 += 1;
                            }
                        }
                    });
                }
            });
            for (k, (c, seed, t)) in seen.lock().unwrap().iter() {
                println!("{c:6} seed={seed} {k}\n       {}", t.chars().take(700).collect::<String>());
            }
            eprintln!("{n} runs in {:?}", t.elapsed());
        }
        // kill: look for any violation of any property with one version's library exchanged (development aid for mutation runs)
        Some("kill") => std::process::exit(kill(&ctx, a[2].parse().unwrap(), a[3].parse().unwrap(), a.get(4).map(|s| s.as_str()).unwrap_or(""))),
        _ => std::process::exit(2),
    }
}

fn kill(ctx: &Ctx, idx: usize, div: u64, only: &str) -> i32 {
    let has = |p: &Value| p["vers"].as_array().is_some_and(|a| a.iter().any(|x| x.as_u64() == Some(idx as u64)));
    let props: Vec<&str> = ["C15", "C16", "C02", "C05", "C01", "C08", "C09", "C10", "C03", "C04", "C06", "C12", "C07", "C13", "C14", "C11"]
        .into_iter()
        .filter(|p| (only.is_empty() || only.contains(p)) && (0..60).any(|i| has(&plan_for(ctx, p, i))))
        .collect();
    for (from, to) in [(0, 60), (60, u64::MAX)] {
        for prop in &props {
            let known = report::known(&ctx.root, prop);
            let n = (runs_for(prop, "quick") / 6 / div).max(60).min(to);
            let next = AtomicU64::new(from);
            let found: Mutex<Option<String>> = Mutex::new(None);
            std::thread::scope(|s| {
                for _ in 0..2 {
                    s.spawn(|| loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n || found.lock().unwrap().is_some() {
                            break;
                        }
                        let Some(plan) = (0..60).map(|k| plan_for(ctx, prop, rng::hash_str(i, &format!("{k}")))).find(|p| has(p)) else { continue };
                        let o = execute(ctx, &plan, false);
                        if let Some(x) = o.viols.iter().find(|x| relevant(prop, x) && !known.iter().any(|k| k.matches(x))) {
                            *found.lock().unwrap() = Some(format!("{prop} after {i}: {}", x.text.chars().take(300).collect::<String>()));
                        }
                    });
                }
            });
            if let Some(t) = found.into_inner().unwrap() {
                println!("KILLED {t}");
                return 1;
            }
        }
    }
    println!("SURVIVED");
    0
}

fn search(ctx: &Ctx, prop: &str, tier: &str, seed: u64) -> i32 {
    let t0 = Instant::now();
    let known_list = report::known(&ctx.root, prop);
    let runs = std::env::var("VP_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| runs_for(prop, tier));
    let cap = if tier == "thorough" { 3000 } else { 330 };
    let next_run = AtomicU64::new(0);
    let stop = AtomicU64::new(u64::MAX);
    let repeated = AtomicUsize::new(0);
    let totals = Mutex::new(report::Totals::default());
    let first: Mutex<Option<(u64, Viol, Vec<u64>)>> = Mutex::new(None);
    let slots = &guard::Slots::open();
    let (next, stop_at, repeats, tot, found, known) = (&next_run, &stop, &repeated, &totals, &first, &known_list);
    std::thread::scope(|s| {
        for me in 0..guard::THREADS {
            s.spawn(move || {
                let mut local = report::Totals::default();
                let mut before: Vec<u64> = vec![];
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= runs || i > stop_at.load(Ordering::Relaxed) || t0.elapsed().as_secs() > cap {
                        slots.set(me, u64::MAX);
                        break;
                    }
                    slots.set(me, i);
                    let rs = rng::hash_str(seed, &format!("{prop}:{i}"));
                    let plan = plan_for(ctx, prop, rs);
                    let o = execute(ctx, &plan, false);
                    if i % 97 == 0 {
                        // one seed is one execution: run it again and compare the whole record
                        let o2 = execute(ctx, &plan, false);
                        if o.hash != o2.hash || o.steps != o2.steps {
                            eprintln!("run {i} (seed {rs}) is not repeatable");
                            local.nondet += 1;
                        }
                        repeats.fetch_add(1, Ordering::Relaxed);
                    }
                    let mut bad = None;
                    for x in &o.viols {
                        if !relevant(prop, x) {
                            local.other += 1;
                            continue;
                        }
                        match known.iter().position(|k| k.matches(x)) {
                            Some(k) => *local.known.entry(k).or_insert(0) += 1,
                            None => {
                                bad.get_or_insert_with(|| x.clone());
                            }
                        }
                    }
                    if i < 3 {
                        local.sample(i, &plan, &o);
                    }
                    local.add(&plan, &o);
                    if let Some(x) = bad {
                        let mut f = found.lock().unwrap();
                        if f.as_ref().is_none_or(|(j, ..)| i < *j) {
                            *f = Some((i, x, before.clone()));
                            stop_at.fetch_min(i, Ordering::Relaxed);
                        }
                    }
                    before.push(i);
                }
                tot.lock().unwrap().merge(local);
            });
        }
    });
    let mut tot = std::mem::take(&mut *totals.lock().unwrap());
    tot.repeats = repeats.load(Ordering::Relaxed) as u64;
    for (i, k) in known.iter().enumerate() {
        println!("KNOWN-FINDING: property={prop} {} (met {} times in this run)", k.what, tot.known.get(&i).copied().unwrap_or(0));
    }
    let mut violations = 0;
    let mut code = 0;
    if tot.nondet > 0 {
        eprintln!("the simulation is not deterministic: {} of {} repeated runs differed", tot.nondet, tot.repeats);
        code = 3;
    }
    if let Some((i, x, before)) = found.lock().unwrap().take() {
        violations = 1;
        let rs = rng::hash_str(seed, &format!("{prop}:{i}"));
        let plan = plan_for(ctx, prop, rs);
        println!("run {i} (seed {rs}) breaks {prop}: {}", x.text);
        let small = minimize::minimize(ctx, &plan, &x.sig);
        let secs = std::time::Duration::from_secs(60);
        let (small, earlier) = if fresh::hits(ctx, &[], &small, &x.sig, secs) {
            (small, vec![])
        } else if fresh::hits(ctx, &[], &plan, &x.sig, secs) {
            (minimize::minimize_after(ctx, &plan, &x.sig, Some(&[])), vec![])
        } else {
            // the library carried something over from earlier runs: they become part of the replay
            println!("the run fails only after others; looking for them");
            let all: Vec<u64> = (0..i).collect();
            match fresh::history(ctx, prop, &x.sig, &plan, &[before, all], |i| rng::hash_str(seed, &format!("{prop}:{i}"))) {
                Some(b) => (minimize::minimize_after(ctx, &plan, &x.sig, Some(&b)), b),
                None => (plan, vec![]),
            }
        };
        let path = report::write_replay(ctx, prop, rs, &small, &x, &earlier);
        println!("VIOLATION property={prop} replay={path}");
        code = 1;
    }
    report::evidence(ctx, prop, tier, seed, &tot, runs, t0.elapsed().as_secs_f64(), violations);
    println!("{prop} {tier}: {} runs, {} events, {} frames through the library, {:.1} s", tot.runs, tot.steps, tot.count.get("frames_handled").copied().unwrap_or(0), t0.elapsed().as_secs_f64());
    code
}
