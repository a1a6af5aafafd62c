//! Batches: items of one side travel in batches over relays that forward, split and merge them, until each has arrived.
use crate::cat::*;
use crate::check::*;
use crate::jsonx::*;
use crate::net::*;
use crate::rng::*;
use crate::session::scramble;
use crate::world::*;
use crate::{Ctx, Outcome};
use serde_json::{json, Value};

pub enum Ev {
    Flush { side: usize },
    Arrive { node: usize, side: usize, items: Vec<usize>, batch: bool, text: String, damaged: bool, hop: u64 },
    Relay { node: usize, side: usize },
    Ack { side: usize, items: Vec<usize> },
    Down(usize, u64),
    Up(usize),
}

pub fn plan(ctx: &Ctx, seed: u64, prop: &str) -> Value {
    let mut rr = Rng::new(hash_str(seed, prop));
    let r = &mut rr;
    let v = &ctx.vers[r.below(6)];
    let n = r.below(3) + 2;
    let mut g = gen_for(v, r);
    g.depth = g.depth.min(4);
    let mut used: [Vec<Value>; 2] = [vec![], vec![]];
    let mut ops = vec![];
    for u in 0..r.scale(2, 18, 0.003, 300) {
        if r.p(0.3) {
            g = gen_for(v, r);
        }
        let side = r.below(2);
        let s = ["c", "s"][side];
        let (kind, ty, frame) = item(v, &g, r, s, &mut used[side]);
        ops.push(json!({"u": u, "t": if r.p(0.7) { 0 } else { r.below(600) }, "from": s, "kind": kind, "ty": ty, "frame": frame}));
    }
    if r.p(0.2) {
        // hardly any requests
        let keep = r.below(ops.len().max(1)) as u64;
        ops.retain(|o| o["kind"] != "request" || un(o, "u") == keep);
    }
    let mut events = vec![];
    if n > 2 && r.p(0.3) {
        events.push(json!({"e": "crash", "n": 1 + r.below(n - 2), "t": r.below(2000), "down": 1 + r.below(500)}));
    }
    let corrupt = *r.pick(&[0.0, 0.1, 0.3]);
    json!({"scn": "batch", "prop": prop, "seed": seed, "vers": [v.idx], "n": n, "net_seed": r.next() >> 8, "prof": Profile::draw(r, corrupt), "rto": *r.pick(&[200u64, 700]), "heal": 3000,
           "max": *r.pick(&[1usize, 2, 3, 6, 40, 400]), "single": *r.pick(&[0.0, 0.3, 0.7]), "ops": ops, "events": events, "faults": null})
}

struct B<'a> {
    ver: &'a Ver,
    plan: &'a Value,
    w: World<Ev>,
    n: usize,
    ops: Vec<Value>,
    acked: Vec<bool>,
    /// how often each item arrived at the far end
    arrived: Vec<u64>,
    up: Vec<bool>,
    /// per relay and side: items waiting to be passed on, as texts
    hold: Vec<[Vec<(usize, String)>; 2]>,
    round: u64,
}

pub fn run(ctx: &Ctx, plan: &Value, trace: bool) -> Outcome {
    let n = un(plan, "n") as usize;
    let ops = plan["ops"].as_array().unwrap().clone();
    let mut b = B {
        ver: &ctx.vers[plan["vers"][0].as_u64().unwrap() as usize],
        plan,
        w: World::new(plan, trace),
        n,
        acked: vec![false; ops.len()],
        arrived: vec![0; ops.len()],
        ops,
        up: vec![true; n],
        hold: (0..n).map(|_| [vec![], vec![]]).collect(),
        round: 0,
    };
    for side in 0..2 {
        b.w.at(0, Ev::Flush { side });
    }
    for e in plan["events"].as_array().unwrap() {
        b.w.at(un(e, "t"), Ev::Down(un(e, "n") as usize, un(e, "down")));
    }
    b.go();
    for i in 0..b.ops.len() {
        if b.arrived[i] == 0 {
            let x = v("batch", b.ver, "lost", format!("the {} {} never arrived although faults stopped", st(&b.ops[i], "kind"), b.ops[i]["frame"]));
            b.w.viols.push(x);
        }
    }
    Outcome::of(b.w)
}

impl B<'_> {
    fn side(&self, i: usize) -> usize {
        if st(&self.ops[i], "from") == "c" { 0 } else { 1 }
    }
    fn frame(&self, i: usize) -> &Value {
        &self.ops[i]["frame"]
    }
    fn bad(&mut self, what: &str, text: String) {
        let x = v("batch", self.ver, what, text);
        self.w.viols.push(x);
    }
    /// Group items (in order) into frames and send them to the next node.
    fn send(&mut self, at: usize, side: usize, items: Vec<(usize, String)>, tag: &str) {
        let ids: Vec<usize> = items.iter().map(|x| x.0).collect();
        let key = format!("grp:{tag}:{ids:?}");
        let mut r = self.w.choice(&key);
        let max = un(self.plan, "max").max(1) as usize;
        let mut rest = items;
        let mut k = 0u64;
        while !rest.is_empty() {
            let size = 1 + r.below(max.min(rest.len()));
            let more = rest.split_off(size.min(rest.len()));
            let mut group = std::mem::replace(&mut rest, more);
            if r.p(0.2) {
                // requests last
                group.sort_by_key(|x| st(&self.ops[x.0], "kind") == "request");
            }
            k += 1;
            let single = group.len() == 1 && r.p(self.plan["single"].as_f64().unwrap_or(0.0));
            let ids: Vec<usize> = group.iter().map(|x| x.0).collect();
            let style = r.below(4);
            // texts that left the library go on as they are
            let text = if single {
                group[0].1.clone()
            } else if style == 0 {
                format!("[{}]", group.iter().map(|x| x.1.as_str()).collect::<Vec<_>>().join(","))
            } else {
                let a: Vec<Value> = group.iter().map(|x| serde_json::from_str(&x.1).unwrap_or(Value::Null)).collect();
                scramble(&json!(a), &mut r, style)
            };
            if !single && r.p(0.02) && at == (if side == 0 { 0 } else { self.n - 1 }) {
                self.empty(side);
            }
            let to = if side == 0 { at + 1 } else { at - 1 };
            self.w.note(&format!("send {at}->{to} {ids:?} {}", if single { "single" } else { "batch" }), &text);
            self.w.bump(if single { "single_frames" } else { "batch_frames" });
            let hop = k;
            post(&mut self.w, &format!("{tag}:{k}:{to}"), &text, |t, dam| Ev::Arrive { node: to, side, items: ids.clone(), batch: !single, text: t, damaged: dam, hop });
        }
    }
    fn empty(&mut self, side: usize) {
        // a frame of no messages: refused, or a batch of none, but never a message
        let rep = self.ver.lib.call(&json!({"op": "batch", "side": (["c", "s"][side]), "text": "[]", "dr": 0, "er": 0}));
        if rep.get("panic").is_some() {
            return;
        }
        if let Some(d) = rep.get("ok") {
            if d["is_batch"] != true || d["inc"] != false || d["kinds"] != json!([]) {
                self.bad("empty", format!("the empty batch is taken for {d}"));
            }
        }
    }
    fn flush(&mut self, side: usize) {
        let now = self.w.now;
        let waiting: Vec<usize> = (0..self.ops.len()).filter(|&i| self.side(i) == side && !self.acked[i]).collect();
        let due: Vec<(usize, String)> = waiting.iter().filter(|&&i| un(&self.ops[i], "t") <= now).map(|&i| (i, self.frame(i).to_string())).collect();
        self.round += 1;
        let at = if side == 0 { 0 } else { self.n - 1 };
        if !due.is_empty() {
            if self.round > 2 {
                self.w.bump("retransmission");
            }
            self.send(at, side, due, &format!("o{side}:{}", self.round));
        }
        if !waiting.is_empty() && now < self.w.heal + 20_000 {
            self.w.after(un(self.plan, "rto").max(1), Ev::Flush { side });
        }
    }
    fn go(&mut self) {
        while let Some(e) = self.w.pop() {
            if self.w.steps > 20_000 {
                return;
            }
            match e {
                Ev::Flush { side } => self.flush(side),
                Ev::Arrive { node, side, items, batch, text, damaged, hop } => self.arrive(node, side, items, batch, text, damaged, hop),
                Ev::Relay { node, side } => {
                    if self.up[node] {
                        let items = std::mem::take(&mut self.hold[node][side]);
                        if !items.is_empty() {
                            if items.len() > 1 {
                                self.w.bump("merged");
                            }
                            let ids: Vec<usize> = items.iter().map(|x| x.0).collect();
                            let tag = self.w.nth(&format!("r{node}:{side}:{ids:?}"));
                            self.send(node, side, items, &tag);
                        }
                    }
                }
                Ev::Ack { side, items } => {
                    let _ = side;
                    for i in items {
                        self.acked[i] = true;
                    }
                }
                Ev::Down(k, down) => {
                    if k > 0 && k + 1 < self.n && self.up[k] {
                        self.w.bump("crash");
                        self.w.note(&format!("crash {k}"), "");
                        self.up[k] = false;
                        self.hold[k] = [vec![], vec![]];
                        self.w.after(down, Ev::Up(k));
                    }
                }
                Ev::Up(k) => {
                    self.w.bump("restart");
                    self.up[k] = true;
                }
            }
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn arrive(&mut self, node: usize, side: usize, items: Vec<usize>, batch: bool, text: String, damaged: bool, hop: u64) {
        if !self.up[node] {
            self.w.bump("lost_to_crashed_node");
            return;
        }
        let me = self.w.nth(&format!("{node}:{side}:{items:?}:{batch}"));
        let mut r = self.w.choice(&format!("at:{me}"));
        let (dr, er) = (r.below(5) as u64, r.below(9) as u64);
        let s = ["c", "s"][side];
        let rep = self.ver.lib.call(&json!({"op": "batch", "side": s, "text": text, "dr": dr, "er": er}));
        let ctx = format!("{s} decode route {dr}, encode route {er}: {}", short(&text, 600));
        self.w.note(&format!("at {node} side {s} items {items:?}"), &text);
        if let Some(p) = rep.get("panic") {
            let x = v("panic", self.ver, "batch", format!("panic: {p}; {ctx}"));
            self.w.viols.push(x);
            return;
        }
        if damaged {
            self.w.bump("damaged_frame_received");
            self.damaged(s, &text, &rep, &ctx);
            return;
        }
        self.w.bump("frames_handled");
        let Some(d) = rep.get("ok") else {
            self.bad("refused", format!("a valid {} was refused: {rep}; {ctx}", if batch { "batch" } else { "message" }));
            return;
        };
        let want: Vec<Value> = items.iter().map(|&i| self.frame(i).clone()).collect();
        let kinds: Vec<String> = items.iter().map(|&i| st(&self.ops[i], "kind").to_string()).collect();
        let inc = kinds.iter().any(|k| k == "request");
        let mut found: Vec<(&str, String)> = vec![];
        if d["is_batch"] != json!(batch) {
            found.push(("is_batch", format!("is_batch() says {}; {ctx}", d["is_batch"])));
        }
        if d["inc"] != json!(inc) {
            found.push(("includes_request", format!("includes_request() says {} of messages of kinds {kinds:?}; {ctx}", d["inc"])));
        }
        if d["kinds"] != json!(kinds) {
            found.push(("kinds", format!("messages of kinds {kinds:?} are reported as {}; {ctx}", d["kinds"])));
        }
        for b in d["bad"].as_array().into_iter().flatten() {
            found.push(("views", format!("the batch's views disagree: {b}; {ctx}")));
        }
        let mut pass: Vec<(usize, String)> = vec![];
        match serde_json::from_str::<Value>(st(d, "enc")) {
            Err(x) => found.push(("enc", format!("encoded as something that is not JSON ({x}): {}; {ctx}", st(d, "enc")))),
            Ok(got) => {
                let got: Vec<Value> = match (batch, got) {
                    (true, Value::Array(a)) => a,
                    (false, x @ Value::Object(_)) => vec![x],
                    (_, x) => {
                        found.push(("enc shape", format!("encoded as {}; {ctx}", short(&x.to_string(), 200))));
                        vec![]
                    }
                };
                if let Some((p, x)) = diff(&json!(want), &json!(got)) {
                    found.push(("enc", format!("encoded batch differs: {p} {x}; {ctx}")));
                } else {
                    pass = items.iter().copied().zip(got.iter().map(|x| x.to_string())).collect();
                }
            }
        }
        for (k, t) in found {
            self.bad(k, t);
        }
        // the same text as a single message
        if r.p(0.4) {
            let one = self.ver.lib.call(&json!({"op": "recv", "side": s, "text": text, "dr": dr, "er": 0, "deep": false}));
            if one.get("panic").is_some() {
                self.bad("panic", format!("panic: {one}; {ctx}"));
            } else if batch && one.get("ok").is_some() {
                self.bad("batch as single", format!("a batch is accepted as a single {}; {ctx}", st(&one["ok"], "kind")));
            } else if !batch && one.get("ok").is_none() {
                self.bad("single refused", format!("a message in the batch type is refused by the single type: {one}; {ctx}"));
            } else if !batch && one["ok"]["kind"] != kinds[0] {
                self.bad("single kind", format!("a {} is a {} as a single message; {ctx}", kinds[0], one["ok"]["kind"]));
            }
        }
        let far = if side == 0 { self.n - 1 } else { 0 };
        if node == far {
            for &i in &items {
                self.arrived[i] += 1;
                self.w.bump(if self.arrived[i] == 1 { "items_delivered" } else { "duplicate_suppressed" });
            }
            let key = format!("ack:{me}");
            post(&mut self.w, &key, "", |_, _| Ev::Ack { side, items: items.clone() });
            return;
        }
        if pass.is_empty() {
            return;
        }
        // pass it on as it is, item by item, or together with others
        match r.below(3) {
            0 => {
                let to = if side == 0 { node + 1 } else { node - 1 };
                let text = canon(st(d, "enc"));
                let key = format!("f:{me}");
                post(&mut self.w, &key, &text, |t, dam| Ev::Arrive { node: to, side, items: items.clone(), batch, text: t, damaged: dam, hop });
            }
            1 => {
                self.w.bump("split");
                for (k, it) in pass.into_iter().enumerate() {
                    let tag = format!("s{me}:{k}");
                    self.send(node, side, vec![it], &tag);
                }
            }
            _ => {
                self.hold[node][side].extend(pass);
                let d = 1 + r.below(60) as u64;
                self.w.after(d, Ev::Relay { node, side });
            }
        }
    }
    fn damaged(&mut self, s: &str, text: &str, rep: &Value, ctx: &str) {
        let parsed = serde_json::from_str::<Value>(text);
        let why = match &parsed {
            Err(_) => Some("not JSON"),
            Ok(_) if !plain(text) => return,
            Ok(Value::Array(a)) => a.iter().find_map(|x| match envelope(self.ver, s, x) {
                Env::Malformed(w) => Some(w),
                _ => None,
            }),
            Ok(x) => match envelope(self.ver, s, x) {
                Env::Malformed(w) => Some(w),
                _ => None,
            },
        };
        match (why, rep.get("ok")) {
            (Some(w), Some(d)) => self.bad(&format!("malformed|{w}"), format!("a batch or message with a malformed part ({w}) was delivered as {}; {ctx}", d["kinds"])),
            (Some(_), None) => self.w.bump("damaged_refused"),
            (None, Some(d)) => {
                self.w.bump("damaged_but_wellformed");
                let is = parsed.as_ref().is_ok_and(Value::is_array);
                if d["is_batch"] != json!(is) {
                    self.bad("is_batch", format!("is_batch() says {}; {ctx}", d["is_batch"]));
                }
                if let Ok(Value::Array(a)) = &parsed {
                    if d["kinds"].as_array().map(Vec::len) != Some(a.len()) {
                        self.bad("kinds", format!("{} messages are reported as {}; {ctx}", a.len(), d["kinds"]));
                    }
                }
            }
            _ => {}
        }
    }
}
