//! The journal: a peer writes every message it handles, encoded by the library, as one line to a simulated disk (buffered
//! writes, fsync, disk full, torn and rotten tails), crashes, replays the file through the library and carries on.
use crate::cat::*;
use crate::check::*;
use crate::jsonx::*;
use crate::net::*;
use crate::rng::*;
use crate::session::scramble;
use crate::world::*;
use crate::{Ctx, Outcome};
use serde_json::{json, Value};
use std::collections::HashMap;

pub enum Ev {
    Start(usize),
    /// a request (leg 0) or reply (leg 1) or a message of the peer (leg 2) arrives
    Arrive { at_peer: bool, op: usize, leg: u8, text: String },
    Retry { op: usize, epoch: u64 },
    Record { op: usize, leg: u8, text: String, epoch: u64 },
    Sync { epoch: u64 },
    Crash(u64),
    Restart,
}

pub fn plan(ctx: &Ctx, seed: u64, prop: &str) -> Value {
    let mut rr = Rng::new(hash_str(seed, prop));
    let r = &mut rr;
    let v = &ctx.vers[r.below(6)];
    let who = if v.fam == Fam::C { *r.pick(&["c", "c", "s"]) } else { *r.pick(&["c", "s"]) };
    let other = if who == "c" { "s" } else { "c" };
    let mut g = gen_for(v, r);
    g.depth = g.depth.min(4);
    let mut used: [Vec<Value>; 2] = [vec![], vec![]];
    let mut ops = vec![];
    for u in 0..r.scale(2, 12, 0.003, 120) {
        if r.p(0.3) {
            g = gen_for(v, r);
            g.depth = g.depth.min(4);
        }
        let own = r.p(0.65);
        let from = if own { who } else { other };
        let e = if own { 0 } else { 1 };
        let (mut kind, mut ty, mut frame);
        loop {
            (kind, ty, frame) = item(v, &g, r, from, &mut used[e]);
            if kind == "request" || kind == "notification" {
                break;
            }
        }
        let mut o = json!({"u": u, "t": r.below(2500), "from": from, "kind": kind, "ty": ty, "frame": frame, "style": r.below(4)});
        if own && kind == "request" {
            let id = frame["id"].clone();
            let rep = if r.p(0.15) {
                json!({"kind": "error", "ty": "error", "frame": frame_error(&id, crate::gen::error_obj(&g, r))})
            } else if ty == "custom" {
                json!({"kind": "response", "ty": "custom", "frame": frame_response(&id, crate::gen::custom_result(v, &g, r))})
            } else {
                let t = v.result_of(ty);
                json!({"kind": "response", "ty": t, "frame": frame_response(&id, v.result(&g, r, t))})
            };
            o["reply"] = rep;
            o["reply"]["style"] = json!(r.below(4));
        }
        ops.push(o);
    }
    let mut events = vec![];
    for _ in 0..r.below(5) {
        events.push(json!({"e": "crash", "t": r.below(3000), "down": 1 + r.below(300)}));
    }
    json!({"scn": "journal", "prop": prop, "seed": seed, "vers": [v.idx], "who": who, "net_seed": r.next() >> 8, "prof": Profile::draw(r, 0.0), "rto": *r.pick(&[200u64, 600]), "heal": 3500,
           "sync": *r.pick(&[0u64, 5, 40, 200]), "full": *r.pick(&[0.0, 0.1, 0.3]), "ops": ops, "events": events, "faults": null})
}

struct Entry {
    /// None: what is left of a write that failed
    what: Option<(usize, u8)>,
    end: usize,
    acted: bool,
}
struct J<'a> {
    ver: &'a Ver,
    plan: &'a Value,
    w: World<Ev>,
    ops: Vec<Value>,
    texts: HashMap<(usize, u8), String>,
    who: &'a str,
    up: bool,
    epoch: u64,
    file: Vec<u8>,
    durable: usize,
    log: Vec<Entry>,
    sync_due: bool,
    // what the recording peer holds in memory
    pending: HashMap<String, usize>,
    answered: HashMap<String, usize>,
    seen: HashMap<String, usize>,
    recorded: Vec<bool>,
    completions: Vec<u64>,
    started: Vec<bool>,
}

pub fn run(ctx: &Ctx, plan: &Value, trace: bool) -> Outcome {
    let ops = plan["ops"].as_array().unwrap().clone();
    let k = ops.len();
    let mut j = J {
        ver: &ctx.vers[plan["vers"][0].as_u64().unwrap() as usize],
        plan,
        w: World::new(plan, trace),
        ops,
        texts: HashMap::new(),
        who: st(plan, "who"),
        up: true,
        epoch: 0,
        file: vec![],
        durable: 0,
        log: vec![],
        sync_due: false,
        pending: HashMap::new(),
        answered: HashMap::new(),
        seen: HashMap::new(),
        recorded: vec![false; k],
        completions: vec![0; k],
        started: vec![false; k],
    };
    for i in 0..k {
        let o = &j.ops[i];
        let t = un(o, "t");
        let mut r = j.w.choice(&format!("text:{}", un(o, "u")));
        let a = scramble(&o["frame"], &mut r, un(o, "style") as usize);
        let own = st(o, "from") == j.who;
        if o["reply"].is_object() {
            let b = scramble(&o["reply"]["frame"], &mut r, un(&o["reply"], "style") as usize);
            j.texts.insert((i, 1), b);
        }
        j.texts.insert((i, if own { 0 } else { 2 }), a);
        j.w.at(t, Ev::Start(i));
    }
    for e in plan["events"].as_array().unwrap() {
        j.w.at(un(e, "t"), Ev::Crash(un(e, "down")));
    }
    j.go();
    // everything is written out; one last reading of the file
    if j.w.viols.is_empty() {
        j.w.note("last replay", "");
        j.durable = j.file.len();
        j.replay();
    }
    for i in 0..k {
        if j.started[i] && j.ops[i]["reply"].is_object() && j.completions[i] != 1 && j.w.viols.is_empty() {
            let t = format!("request {} was completed {} times", j.ops[i]["frame"]["id"], j.completions[i]);
            j.bad(if j.completions[i] == 0 { "lost completion" } else { "repeated completion" }, t);
        }
    }
    Outcome::of(j.w)
}

impl<'a> J<'a> {
    fn bad(&mut self, what: &str, text: String) {
        let x = v("journal", self.ver, what, text);
        self.w.viols.push(x);
    }
    fn exp(&self, op: usize, leg: u8) -> (String, String, String, Value) {
        let o = &self.ops[op];
        let (m, side) = if leg == 1 { (&o["reply"], if st(o, "from") == "c" { "s" } else { "c" }) } else { (o, st(o, "from")) };
        (side.to_string(), st(m, "kind").into(), st(m, "ty").into(), m["frame"].clone())
    }
    fn go(&mut self) {
        while let Some(e) = self.w.pop() {
            if self.w.steps > 8000 {
                return;
            }
            match e {
                Ev::Start(i) => {
                    self.started[i] = true;
                    if st(&self.ops[i], "from") != self.who {
                        let key = format!("m{}", un(&self.ops[i], "u"));
                        let text = self.texts[&(i, 2)].clone();
                        post(&mut self.w, &key, &text, |t, _| Ev::Arrive { at_peer: false, op: i, leg: 2, text: t });
                    } else if self.up {
                        self.begin(i);
                    }
                }
                Ev::Arrive { at_peer, op, leg, text } => self.arrive(at_peer, op, leg, text),
                Ev::Retry { op, epoch } => {
                    if self.up && epoch == self.epoch && self.completions[op] == 0 && self.w.now < self.w.heal + 20_000 {
                        self.w.bump("retransmission");
                        self.transmit(op);
                    }
                }
                Ev::Record { op, leg, text, epoch } => {
                    if self.up && epoch == self.epoch {
                        self.record(op, leg, &text);
                    }
                }
                Ev::Sync { epoch } => {
                    if self.up && epoch == self.epoch {
                        self.sync();
                    }
                }
                Ev::Crash(down) => {
                    if self.up {
                        self.crash();
                        self.w.after(down, Ev::Restart);
                    }
                }
                Ev::Restart => {
                    self.w.bump("restart");
                    self.up = true;
                    self.replay();
                    // what was asked of the peer but never reached the disk is asked again
                    for i in 0..self.ops.len() {
                        if self.started[i] && st(&self.ops[i], "from") == self.who && !self.recorded[i] {
                            self.begin(i);
                        }
                    }
                }
            }
        }
    }
    /// The recording peer issues a message of its own: recorded first, sent once the record is safe.
    fn begin(&mut self, i: usize) {
        self.recorded[i] = true;
        if self.ops[i]["reply"].is_object() {
            self.pending.insert(id_key(&self.ops[i]["frame"]["id"]), i);
        }
        let t = self.texts[&(i, 0)].clone();
        self.record(i, 0, &t);
    }
    /// Append one line to the file, encoded by the library.
    fn record(&mut self, op: usize, leg: u8, text: &str) {
        let (side, kind, ty, frame) = self.exp(op, leg);
        let key = self.w.nth(&format!("d{}:{leg}", un(&self.ops[op], "u")));
        let p = self.plan["full"].as_f64().unwrap_or(0.0);
        let faulty = self.w.faulty();
        let f = self.w.fate(&key, |r| {
            if !faulty || !r.p(p) {
                return None;
            }
            let n = r.below(30);
            let mut s: Vec<i64> = (0..n).map(|_| if r.p(0.3) { 1 + r.below(5) as i64 } else { 100_000 }).collect();
            s.push(*r.pick(&[-2, -3]));
            Some(json!(s))
        });
        let mut r = self.w.choice(&format!("how:{key}"));
        let q = json!({"op": "write", "side": side, "text": text, "dr": r.below(5), "how": r.below(2), "plan": f});
        let rep = self.ver.lib.call(&q);
        self.w.bump("frames_handled");
        self.w.note(&format!("record {op}.{leg} {kind} {ty}"), st(&rep, "written"));
        let ctx = format!("recording {}", short(text, 500));
        let Some(ok) = rep.get("ok").and_then(Value::as_bool) else {
            let what = if rep.get("panic").is_some() { "panic" } else { "refused" };
            self.bad(what, format!("{rep}; {ctx}"));
            return;
        };
        let full = st(&rep, "full").as_bytes();
        let n = (un(&rep, "bytes") as usize).min(full.len());
        // a whole message in spite of a late error is whole
        self.file.extend_from_slice(format!("{side} ").as_bytes());
        self.file.extend_from_slice(&full[..n]);
        if full.contains(&b'\n') || full.contains(&b'\r') {
            self.bad("line break", format!("the encoding contains a raw line break: {}; {ctx}", st(&rep, "full")));
        }
        self.file.push(b'\n');
        let end = self.file.len();
        if ok {
            let got: Value = serde_json::from_str(st(&rep, "full")).unwrap_or(Value::Null);
            if let Some((p, x)) = diff(&frame, &got) {
                self.bad(&format!("record|{}", generic_path(&p)), format!("the record differs from the message: {p} {x}; {ctx}"));
            }
            self.log.push(Entry { what: Some((op, leg)), end, acted: false });
            self.w.bump("records_written");
        } else {
            self.w.bump("disk_full");
            self.log.push(Entry { what: None, end, acted: true });
            let (text, epoch) = (text.to_string(), self.epoch);
            self.w.after(30, Ev::Record { op, leg, text, epoch });
        }
        let s = un(self.plan, "sync");
        if s == 0 {
            self.sync();
        } else if !self.sync_due {
            self.sync_due = true;
            let epoch = self.epoch;
            self.w.after(s, Ev::Sync { epoch });
        }
    }
    fn sync(&mut self) {
        self.sync_due = false;
        self.durable = self.file.len();
        self.w.bump("fsync");
        for k in 0..self.log.len() {
            if !self.log[k].acted {
                self.act(k);
            }
        }
    }
    /// A record is safe on disk: do what it stands for.
    fn act(&mut self, k: usize) {
        self.log[k].acted = true;
        let Some((op, leg)) = self.log[k].what else { return };
        if leg == 0 {
            self.transmit(op);
        } else if leg == 1 {
            self.completions[op] += 1;
            self.w.bump("requests_completed");
            if self.completions[op] > 1 {
                let t = format!("request {} was completed again", self.ops[op]["frame"]["id"]);
                self.bad("repeated completion", t);
            }
        }
    }
    fn transmit(&mut self, op: usize) {
        let key = self.w.nth(&format!("q{}", un(&self.ops[op], "u")));
        let text = self.texts[&(op, 0)].clone();
        post(&mut self.w, &key, &text, |t, _| Ev::Arrive { at_peer: true, op, leg: 0, text: t });
        if self.ops[op]["reply"].is_object() {
            let epoch = self.epoch;
            self.w.after(un(self.plan, "rto").max(1), Ev::Retry { op, epoch });
        }
    }
    fn arrive(&mut self, at_peer: bool, op: usize, leg: u8, text: String) {
        if !at_peer && !self.up {
            self.w.bump("lost_to_crashed_node");
            return;
        }
        let (side, kind, ty, frame) = self.exp(op, leg);
        let e = Exp { side: &side, kind: &kind, ty: &ty, frame: &frame };
        let key = self.w.nth(&format!("{}:{leg}", un(&self.ops[op], "u")));
        let Some((told, enc)) = hear(&mut self.w, self.ver, &e, &text, &key) else { return };
        if at_peer {
            if self.ops[op]["reply"].is_object() {
                let text = self.texts[&(op, 1)].clone();
                post(&mut self.w, &format!("p{key}"), &text, |t, _| Ev::Arrive { at_peer: false, op, leg: 1, text: t });
            }
            return;
        }
        let id = id_key(&told["id"]);
        match st(&told, "kind") {
            "response" | "error" => match self.pending.remove(&id) {
                None => {
                    self.w.bump("late_duplicate_reply_ignored");
                    if !self.answered.contains_key(&id) {
                        self.bad("unmatched reply", format!("the reply to {} matches no pending request", frame["id"]));
                    }
                }
                Some(o) => {
                    self.answered.insert(id, o);
                    if o != op {
                        self.bad("misdelivered reply", format!("the reply to request {} completed request {}", frame["id"], self.ops[o]["frame"]["id"]));
                    }
                    self.record(op, 1, &enc);
                }
            },
            "request" => {
                if self.seen.insert(id, op).is_some() {
                    self.w.bump("duplicate_suppressed");
                } else {
                    self.record(op, 2, &enc);
                }
            }
            _ => self.record(op, 2, &enc),
        }
    }
    fn crash(&mut self) {
        self.w.bump("crash");
        self.up = false;
        let key = format!("crash{}", self.epoch);
        self.epoch += 1;
        self.sync_due = false;
        self.pending.clear();
        self.answered.clear();
        self.seen.clear();
        let (d, n) = (self.durable, self.file.len());
        let f = self.w.fate(&key, |r| if n == d { None } else { Some(json!({"keep": r.below(n - d + 1), "rot": if r.p(0.3) { json!([r.below(n - d), 1 << r.below(8)]) } else { Value::Null }})) });
        let f = f.unwrap_or(json!({"keep": 0}));
        let keep = (d + un(&f, "keep") as usize).min(n);
        self.file.truncate(keep);
        if keep < n {
            self.w.bump(if keep == d { "lost_tail" } else { "torn_record" });
        }
        if let Some(a) = f["rot"].as_array() {
            let p = d + a[0].as_u64().unwrap_or(0) as usize;
            if p < self.file.len() {
                self.w.bump("bit_rot");
                self.file[p] ^= a[1].as_u64().unwrap_or(1) as u8;
            }
        }
        self.w.note(&format!("crash {} keeps {} of {}", self.epoch, keep - d, n - d), "");
    }
    /// Read the file back through the library, rebuild the peer's memory, and rewrite the file with what is good.
    fn replay(&mut self) {
        self.pending.clear();
        self.answered.clear();
        self.seen.clear();
        self.recorded.iter_mut().for_each(|x| *x = false);
        let file = std::mem::take(&mut self.file);
        let log = std::mem::take(&mut self.log);
        let mut start = 0;
        let mut keep: Vec<(Entry, String)> = vec![];
        let mut whole = 0;
        for (k, en) in log.into_iter().enumerate() {
            if start >= file.len() {
                break;
            }
            let end = en.end.min(file.len());
            let line = &file[start..end];
            let orig = start;
            start = end;
            let body = line.strip_suffix(b"\n").unwrap_or(line);
            // what the sides marker and the text of the record say, as bytes on the disk
            let Some(text) = std::str::from_utf8(body).ok().filter(|t| t.len() > 2).map(|t| t[2..].to_string()) else {
                self.w.bump("torn_refused");
                continue;
            };
            let side = if body[0] == b's' { "s" } else { "c" };
            let key = format!("j{}:{k}", self.epoch);
            let Some((op, leg)) = en.what else {
                self.torn(side, &text, &key);
                continue;
            };
            let (s0, kind, ty, frame) = self.exp(op, leg);
            let good = end == en.end || serde_json::from_str::<Value>(&text).is_ok();
            let intact = good && serde_json::from_str::<Value>(&text).is_ok_and(|x| same(&x, &frame) && x["id"] == frame["id"]) && plain(&text) && side == s0 && body[1] == b' ' && !text.contains('\n');
            if !intact {
                if orig < self.durable {
                    self.bad("durable record lost", format!("the durable record of {} reads back as {}", frame, short(&text, 400)));
                }
                self.torn(side, &text, &key);
                continue;
            }
            whole += 1;
            let e = Exp { side, kind: &kind, ty: &ty, frame: &frame };
            let before = self.w.viols.len();
            let Some((told, enc)) = hear(&mut self.w, self.ver, &e, &text, &key) else { continue };
            self.w.bump("records_replayed");
            for i in before..self.w.viols.len() {
                let x = self.w.viols[i].clone();
                self.w.viols[i] = Viol { class: "journal", sig: format!("journal|replay|{}", x.sig), text: format!("a recorded message replays differently: {}", x.text) };
            }
            let id = id_key(&told["id"]);
            match (st(&told, "kind"), side == self.who) {
                ("request", true) => {
                    self.recorded[op] = true;
                    if self.ops[op]["reply"].is_object() {
                        self.pending.insert(id, op);
                    }
                }
                ("notification", true) => self.recorded[op] = true,
                ("request", false) => {
                    self.seen.insert(id, op);
                }
                ("response" | "error", false) => match self.pending.remove(&id) {
                    Some(o) if o == op => {
                        self.answered.insert(id, op);
                    }
                    Some(o) => self.bad("misdelivered reply", format!("on replay the reply to request {} completed request {}", frame["id"], self.ops[o]["frame"]["id"])),
                    None => self.bad("unmatched reply", format!("on replay the reply to {} matches no pending request", frame["id"])),
                },
                _ => {}
            }
            keep.push((en, format!("{side} {}\n", if self.w.choice(&key).p(0.5) { enc } else { text })));
        }
        let _ = whole;
        let mut redo = vec![];
        for (mut en, line) in keep {
            if line.matches('\n').count() != 1 {
                self.bad("line break", format!("the encoding contains a raw line break: {line}"));
            }
            self.file.extend_from_slice(line.as_bytes());
            en.end = self.file.len();
            if !en.acted {
                redo.push(self.log.len());
            }
            self.log.push(en);
        }
        self.durable = self.file.len();
        self.w.note(&format!("replayed {}", self.log.len()), "");
        for k in redo {
            self.act(k);
        }
        // what is still unanswered is sent again
        let mut again: Vec<usize> = self.pending.values().copied().collect();
        again.sort();
        for op in again {
            if self.completions[op] == 0 {
                self.transmit(op);
            }
        }
    }
    fn torn(&mut self, side: &str, text: &str, key: &str) {
        let dr = 0;
        let rep = self.ver.lib.call(&json!({"op": "recv", "side": side, "text": text, "dr": dr, "er": 0, "deep": true}));
        self.w.note(&format!("torn {key}"), text);
        let mut vs = vec![];
        check_damaged(self.ver, side, text, dr, &rep, &mut vs);
        self.w.bump(if rep.get("ok").is_some() { "damaged_but_wellformed" } else { "torn_refused" });
        for x in &mut vs {
            x.sig = format!("journal|torn|{}", x.sig);
            x.class = "journal";
        }
        self.w.viols.extend(vs);
    }
}
