//! The session world: a client and a server joined by a chain of relays over faulty links. Requests run in both
//! directions with retransmission and duplicate suppression; every frame a node handles goes through the real library.
use crate::cat::*;
use crate::check::*;
use crate::jsonx::*;
use crate::rng::*;
use crate::world::*;
use crate::{Ctx, Outcome};
use serde_json::{json, Map, Value};
use std::collections::HashMap;

pub enum Ev {
    Start(usize),
    Arrive { node: usize, pkt: Pkt },
    Timer { op: usize, att: u64, epoch: u64 },
    Reply { op: usize, node: usize, epoch: u64, att: u64 },
    Down(usize, u64),
    Up(usize),
    Part(usize, bool),
    Upgrade(usize, usize),
}
#[derive(Clone)]
pub struct Pkt {
    op: usize,
    leg: u8,
    att: u64,
    copy: u64,
    text: String,
    damaged: bool,
}

struct OpState {
    frame: Value,
    text: String,
    reply: Value,
    done: bool,
    /// The reply frame as the handling peer produced it.
    reply_frame: Option<Value>,
    reply_text: String,
    started: bool,
    handled: u64,
    seen_damaged: bool,
}

pub fn scramble(v: &Value, r: &mut Rng, style: usize) -> String {
    fn ws(r: &mut Rng, style: usize, o: &mut String) {
        if style >= 2 && r.p(0.3) {
            o.push_str(r.pick(&[" ", "\t", "  "]));
        }
    }
    fn string(s: &str, r: &mut Rng, style: usize, o: &mut String) {
        if style >= 3 {
            o.push('"');
            for c in s.chars() {
                if r.p(0.3) || (c as u32) < 0x20 || c == '"' || c == '\\' {
                    let mut b = [0u16; 2];
                    for u in c.encode_utf16(&mut b) {
                        o.push_str(&format!("\\u{:04x}", u));
                    }
                } else if c == '/' {
                    o.push_str("\\/");
                } else {
                    o.push(c);
                }
            }
            o.push('"');
        } else {
            o.push_str(&serde_json::to_string(s).unwrap());
        }
    }
    fn go(v: &Value, r: &mut Rng, style: usize, o: &mut String) {
        ws(r, style, o);
        match v {
            Value::Object(m) => {
                let mut k: Vec<_> = m.iter().collect();
                r.shuffle(&mut k);
                o.push('{');
                for (i, (a, b)) in k.into_iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    ws(r, style, o);
                    string(a, r, style, o);
                    ws(r, style, o);
                    o.push(':');
                    go(b, r, style, o);
                }
                o.push('}');
            }
            Value::Array(a) => {
                o.push('[');
                for (i, b) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    go(b, r, style, o);
                }
                o.push(']');
            }
            Value::String(s) => string(s, r, style, o),
            x => o.push_str(&x.to_string()),
        }
        ws(r, style, o);
    }
    if style == 0 {
        return v.to_string();
    }
    let mut o = String::new();
    go(v, r, style, &mut o);
    o
}

/// The same text without the marker of a complete result.
fn unmarked(text: &str) -> String {
    let Ok(mut x) = serde_json::from_str::<Value>(text) else { return text.into() };
    if x["result"]["resultType"] == "complete" {
        x["result"].as_object_mut().unwrap().remove("resultType");
        return x.to_string();
    }
    text.into()
}

pub struct Session<'a> {
    ctx: &'a Ctx,
    plan: &'a Value,
    prop: &'a str,
    w: World<Ev>,
    n: usize,
    vers: Vec<usize>,
    kinds: Vec<String>,
    up: Vec<bool>,
    epoch: Vec<u64>,
    part: Vec<u64>,
    ops: Vec<OpState>,
    /// per endpoint: requests waiting for a reply, by id
    pending: [HashMap<String, usize>; 2],
    /// per endpoint: requests already handled in this incarnation, by id
    handled: [HashMap<String, usize>; 2],
    next_arrivals: u64,
}

fn side_of(node_is_client: bool) -> &'static str {
    if node_is_client { "c" } else { "s" }
}

impl<'a> Session<'a> {
    pub fn run(ctx: &'a Ctx, plan: &'a Value, trace: bool) -> Outcome {
        let kinds: Vec<String> = plan["nodes"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
        let n = kinds.len();
        let vers: Vec<usize> = plan["vers"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
        let mut s = Session {
            ctx,
            plan,
            prop: st(plan, "prop"),
            w: World::new(plan, trace),
            n,
            vers,
            kinds,
            up: vec![true; n],
            epoch: vec![0; n],
            part: vec![0; n],
            ops: vec![],
            pending: [HashMap::new(), HashMap::new()],
            handled: [HashMap::new(), HashMap::new()],
            next_arrivals: 0,
        };
        for (i, o) in plan["ops"].as_array().unwrap().iter().enumerate() {
            s.ops.push(OpState {
                frame: o["frame"].clone(),
                text: String::new(),
                reply: o.get("reply").cloned().unwrap_or(Value::Null),
                done: false,
                reply_frame: None,
                reply_text: String::new(),
                started: false,
                handled: 0,
                seen_damaged: false,
            });
            s.w.at(un(o, "t"), Ev::Start(i));
        }
        for e in plan["events"].as_array().unwrap() {
            let t = un(e, "t");
            let k = un(e, "n") as usize;
            match st(e, "e") {
                "crash" => s.w.at(t, Ev::Down(k, un(e, "down"))),
                "part" => {
                    s.w.at(t, Ev::Part(k, true));
                    s.w.at(t + un(e, "dur"), Ev::Part(k, false));
                }
                "upg" => s.w.at(t, Ev::Upgrade(k, un(e, "v") as usize)),
                _ => {}
            }
        }
        s.go();
        // Progress: once faults have stopped, every request must have been answered.
        for i in 0..s.ops.len() {
            if s.ops[i].started && !s.ops[i].reply.is_null() && !s.ops[i].done {
                let o = &s.plan["ops"][i];
                let ver = s.ver_of_origin(i);
                let x = v("live", ver, st(o, "ty"), format!("request {} ({}) was never completed although faults stopped", s.ops[i].frame["id"], st(o, "ty")));
                s.w.viols.push(x);
            }
        }
        Outcome::of(s.w)
    }

    fn ver(&self, node: usize) -> &'a Ver {
        &self.ctx.vers[self.vers[node]]
    }
    fn origin(&self, op: usize) -> usize {
        if st(&self.plan["ops"][op], "from") == "c" { 0 } else { self.n - 1 }
    }
    fn ver_of_origin(&self, op: usize) -> &'a Ver {
        self.ver(self.origin(op))
    }
    /// Who wrote the frame of this leg.
    fn author(&self, op: usize, leg: u8) -> &'static str {
        side_of((self.origin(op) == 0) == (leg == 0))
    }
    fn uid(&self, op: usize) -> u64 {
        un(&self.plan["ops"][op], "u")
    }

    fn send(&mut self, from: usize, to: usize, p: Pkt) {
        let key = format!("{}:{}:{}:{}:{}", self.uid(p.op), p.leg, p.att, p.copy, to);
        let link = from.min(to);
        if self.part[link] > 0 {
            self.w.bump("partition_drop");
            return;
        }
        let copies = self.w.link(&key);
        for (i, c) in copies.into_iter().enumerate() {
            let mut q = p.clone();
            q.copy = p.copy * 2 + i as u64;
            if let Some(spec) = &c.corrupt {
                let k = (spec["r"].as_u64().unwrap_or(0) as usize / 7) % self.ops.len();
                let other = if self.ops[k].text.is_empty() { self.ops[k].frame.to_string() } else { self.ops[k].text.clone() };
                let t = damage(&q.text, &other, spec);
                if t != q.text {
                    q.text = t;
                    q.damaged = true;
                    self.ops[p.op].seen_damaged = true;
                }
            }
            self.w.after(c.delay, Ev::Arrive { node: to, pkt: q });
        }
    }

    fn go(&mut self) {
        while let Some(e) = self.w.pop() {
            if self.w.steps > 40_000 {
                let x = v("live", self.ver(0), "steps", "the run did not come to rest within 40000 steps".into());
                self.w.viols.push(x);
                return;
            }
            match e {
                Ev::Start(i) => self.start(i),
                Ev::Timer { op, att, epoch } => self.timer(op, att, epoch),
                Ev::Arrive { node, pkt } => self.arrive(node, pkt),
                Ev::Reply { op, node, epoch, att } => {
                    if self.up[node] && self.epoch[node] == epoch {
                        self.reply(op, node, att)
                    }
                }
                Ev::Down(k, down) => {
                    if k < self.n && self.up[k] {
                        self.w.bump("crash");
                        self.w.note(&format!("crash {k}"), "");
                        self.up[k] = false;
                        self.epoch[k] += 1;
                        if k == 0 || k == self.n - 1 {
                            let e = if k == 0 { 0 } else { 1 };
                            self.pending[e].clear();
                            self.handled[e].clear();
                        }
                        self.w.after(down, Ev::Up(k));
                    }
                }
                Ev::Up(k) => {
                    self.w.bump("restart");
                    self.w.note(&format!("restart {k}"), "");
                    self.up[k] = true;
                    // unfinished requests are durable at their origin and are issued again
                    for i in 0..self.ops.len() {
                        if self.origin(i) == k && self.ops[i].started && !self.ops[i].done && !self.ops[i].reply.is_null() {
                            let ep = self.epoch[k];
                            self.issue(i, 100 * ep, ep);
                        }
                    }
                }
                Ev::Part(l, on) => {
                    if l < self.part.len() {
                        if on {
                            self.w.bump("partition");
                            self.part[l] += 1;
                        } else {
                            self.w.bump("heal");
                            self.part[l] -= 1;
                        }
                        self.w.note(&format!("partition {l} {on}"), "");
                    }
                }
                Ev::Upgrade(k, nv) => {
                    if k < self.n {
                        self.vers[k] = nv;
                        self.w.bump("upgrade");
                        self.w.note(&format!("upgrade {k} {nv}"), "");
                    }
                }
            }
        }
    }

    /// The origin produces the frame of its request or notification.
    fn compose(&mut self, i: usize) {
        let o = &self.plan["ops"][i];
        let ver = self.ver_of_origin(i);
        let mut r = self.w.choice(&format!("compose:{}", self.uid(i)));
        let b = &o["build"];
        let frame = self.ops[i].frame.clone();
        match st(b, "via") {
            "build" => {
                let t = self.build(ver, self.author(i, 0), st(o, "kind"), st(o, "ty"), &frame, un(b, "er"));
                self.ops[i].text = t.unwrap_or_else(|| frame.to_string());
            }
            "meta" => {
                let mut base = frame.clone();
                if let Some(p) = base.get_mut("params").and_then(Value::as_object_mut) {
                    p.insert("_meta".into(), b["old"].clone());
                }
                let text = scramble(&base, &mut r, un(o, "style") as usize);
                let q = json!({"op": "meta", "meta": frame["params"]["_meta"], "order": b["order"], "text": text});
                let rep = ver.lib.call(&q);
                let ctx = format!("metadata {} attached in order {} to {text}", frame["params"]["_meta"], b["order"]);
                self.ops[i].text = frame.to_string();
                if rep.get("ok").is_none() {
                    let x = v("meta", ver, "refused", format!("attaching metadata failed: {rep}; {ctx}"));
                    self.w.viols.push(x);
                    return;
                }
                let d = &rep["ok"];
                let want = &frame["params"]["_meta"];
                for (k, label) in [("built", "built"), ("seen", "read back")] {
                    if let Some((p, x)) = diff(want, &d[k]) {
                        let y = v("meta", ver, &format!("{k}|{}", generic_path(&p)), format!("metadata {label}: {p} {x}; {ctx}"));
                        self.w.viols.push(y);
                    }
                }
                let t = |k: &str| want.get(k).cloned().unwrap_or(Value::Null);
                let tr = json!([t("traceparent"), t("tracestate"), t("baggage")]);
                if d["trace"] != tr {
                    let y = v("meta", ver, "trace", format!("trace context {tr} reads back as {}; {ctx}", d["trace"]));
                    self.w.viols.push(y);
                }
                let mut vs = vec![];
                let e = Exp { side: "c", kind: "request", ty: st(o, "ty"), frame: &frame };
                check_enc(ver, &e, st(d, "enc"), &ctx, &mut vs);
                self.w.viols.extend(vs);
                self.ops[i].text = canon(st(d, "enc"));
            }
            _ => self.ops[i].text = scramble(&frame, &mut r, un(o, "style") as usize),
        }
        self.w.shapes.insert(shape(&frame, hash_str(ver.idx as u64, st(o, "ty"))));
    }

    /// Build a message from parts through the library; its encoding must be the frame.
    fn build(&mut self, ver: &'a Ver, side: &str, kind: &str, ty: &str, frame: &Value, er: u64) -> Option<String> {
        let fam_a = ver.fam == Fam::A;
        let mut body;
        match kind {
            "request" | "notification" => {
                body = Map::new();
                let p = frame.get("params");
                if fam_a && ty == "custom" {
                    // a custom message is the parameters, with the method beside them
                    body.insert("method".into(), frame["method"].clone());
                    if let Some(p) = p {
                        body.insert("params".into(), p.clone());
                    }
                } else if fam_a || ty == "custom" {
                    body.insert("method".into(), frame["method"].clone());
                    if let Some(p) = p {
                        body.insert("params".into(), p.clone());
                    }
                } else {
                    let q = json!({"op": "build", "side": side, "kind": kind, "ty": ty, "body": p.cloned().unwrap_or(Value::Null), "id": frame.get("id"), "er": er});
                    return self.built(ver, side, kind, ty, frame, er, q);
                }
            }
            "response" => {
                let q = json!({"op": "build", "side": side, "kind": kind, "ty": ty, "body": frame["result"], "id": frame["id"], "er": er});
                return self.built(ver, side, kind, ty, frame, er, q);
            }
            _ => {
                let q = json!({"op": "build", "side": side, "kind": "error", "ty": "error", "body": frame["error"], "id": frame["id"], "er": er});
                return self.built(ver, side, kind, "error", frame, er, q);
            }
        }
        let q = json!({"op": "build", "side": side, "kind": kind, "ty": ty, "body": body, "id": frame.get("id"), "er": er});
        self.built(ver, side, kind, ty, frame, er, q)
    }
    fn built(&mut self, ver: &'a Ver, side: &str, kind: &str, ty: &str, frame: &Value, er: u64, q: Value) -> Option<String> {
        let rep = ver.lib.call(&q);
        self.w.bump("built_from_parts");
        let ctx = format!("{side} building a {kind} {ty} by route {er} from {}", q["body"]);
        let Some(enc) = rep["ok"]["enc"].as_str() else {
            let x = v(if rep.get("panic").is_some() { "panic" } else { "enc" }, ver, &format!("build|{kind}|{ty}"), format!("building failed: {rep}; {ctx}"));
            self.w.viols.push(x);
            return None;
        };
        let e = Exp { side, kind, ty, frame };
        let mut vs = vec![];
        check_enc(ver, &e, enc, &ctx, &mut vs);
        let bad = !vs.is_empty();
        self.w.viols.extend(vs);
        if bad { None } else { Some(canon(enc)) }
    }

    fn start(&mut self, i: usize) {
        let at = self.origin(i);
        if self.ops[i].text.is_empty() {
            self.compose(i);
        }
        self.ops[i].started = true;
        if !self.up[at] {
            // issued when the origin comes back (requests), or never (notifications)
            return;
        }
        let ep = self.epoch[at];
        self.issue(i, 100 * ep, ep);
    }

    fn issue(&mut self, i: usize, att: u64, epoch: u64) {
        let at = self.origin(i);
        let e = if at == 0 { 0 } else { 1 };
        let is_req = !self.ops[i].reply.is_null();
        if is_req {
            self.pending[e].insert(id_key(&self.ops[i].frame["id"]), i);
        }
        self.w.note(&format!("send {} {}", self.uid(i), att), "");
        let text = self.ops[i].text.clone();
        self.hop(at, Pkt { op: i, leg: 0, att, copy: 1, text, damaged: false });
        if is_req {
            let skew = self.plan["skew"][e].as_f64().unwrap_or(1.0);
            let rto = (un(self.plan, "rto") as f64 * skew) as u64;
            if skew != 1.0 {
                self.w.bump("clock_skew_timer");
            }
            self.w.after(rto.max(1), Ev::Timer { op: i, att: att + 1, epoch });
        }
    }
    /// Pass a packet on to the next node on its way.
    fn hop(&mut self, at: usize, p: Pkt) {
        let forward = (self.origin(p.op) == 0) == (p.leg == 0);
        let to = if forward { at + 1 } else { at - 1 };
        self.send(at, to, p);
    }

    fn timer(&mut self, op: usize, att: u64, epoch: u64) {
        let at = self.origin(op);
        if self.ops[op].done || !self.up[at] || self.epoch[at] != epoch {
            return;
        }
        if self.w.now > self.w.heal + un(self.plan, "patience") {
            return;
        }
        self.w.bump("retransmission");
        self.issue(op, att, epoch);
    }

    fn expected(&self, op: usize, leg: u8) -> (String, String, Value) {
        let o = &self.plan["ops"][op];
        if leg == 0 {
            (st(o, "kind").into(), st(o, "ty").into(), self.ops[op].frame.clone())
        } else {
            let r = &self.ops[op].reply;
            (st(r, "kind").into(), st(r, "ty").into(), self.ops[op].reply_frame.clone().unwrap_or(Value::Null))
        }
    }

    fn arrive(&mut self, node: usize, mut p: Pkt) {
        if !self.up[node] {
            self.w.bump("lost_to_crashed_node");
            return;
        }
        self.next_arrivals += 1;
        let ver = self.ver(node);
        let side = self.author(p.op, p.leg);
        let key = format!("rt:{}:{}:{}:{}:{}", self.uid(p.op), p.leg, p.att, p.copy, node);
        let mut r = self.w.choice(&key);
        let (mut dr, er) = (r.below(6) as u64, r.below(9) as u64);
        let (kind, mut ty, frame) = self.expected(p.op, p.leg);
        let mixed = self.plan.get("mixed").is_some();
        if mixed {
            ty = crate::mixed::ty_at(ver, side, &kind, &ty, &frame).to_string();
        }
        // between versions, the marker of a complete result may come and go with the version of the relays
        let marker = mixed && kind == "response" && frame["result"].get("resultType").is_none();
        if marker && ver.fam == Fam::C && side == "s" {
            self.w.bump("unmarked_reply_heard_by_newer_peer");
        }
        if p.damaged {
            // A frame whose damage changed nothing that matters is an ordinary frame.
            let same_meaning = serde_json::from_str::<Value>(&p.text).is_ok_and(|x| frame == x) && plain(&p.text);
            if same_meaning {
                p.damaged = false;
            }
        }
        let endpoint = node == 0 || node == self.n - 1;
        if p.damaged {
            self.w.bump("damaged_frame_received");
            if r.p(0.5) {
                dr = if r.p(0.8) { 0 } else { 5 };
            }
            if dr == 5 && self.prop != "C03" {
                dr = 0;
            }
            let rep = ver.lib.call(&json!({"op": "recv", "side": side, "text": p.text, "dr": dr, "er": 0, "deep": true}));
            let mut vs = vec![];
            check_damaged(ver, side, &p.text, dr, &rep, &mut vs);
            let out = if rep.get("err").is_some() { "refused" } else { "tolerated" };
            self.w.bump(if rep.get("err").is_some() { "damaged_refused" } else { "damaged_but_wellformed" });
            self.w.viols.extend(vs);
            self.w.note(&format!("damaged {} {} {} {out}", self.uid(p.op), p.leg, node), &p.text);
            // the receiver's transport drops the frame; the next one must be read normally
            return;
        }
        self.w.bump("frames_handled");
        self.w.note(&format!("at {} {}.{} {}", node, self.uid(p.op), p.leg, if endpoint { "end" } else { "relay" }), &p.text);
        // the 2026 schema requires resultType of every generic response, which the answers of a client do not carry
        let fits_generic = ver.fam != Fam::C || kind != "response" || frame["result"].get("resultType").is_some();
        // the metadata of a generic request is closed in the first two versions
        let fits_generic = fits_generic && (ver.idx > 1 || kind != "request" || at(&frame, "params/_meta").as_object().is_none_or(|m| m.keys().all(|k| k == "progressToken")));
        if self.kinds[node] == "g" && !endpoint && fits_generic {
            let mut rep = ver.lib.call(&json!({"op": "generic", "text": p.text, "dr": if dr == 5 { 0 } else { dr }}));
            if let (true, Some(x)) = (marker, rep["ok"]["enc"].as_str()) {
                rep["ok"]["enc"] = json!(unmarked(x));
            }
            let ctx = format!("generic relay decode route {dr}: {}", p.text.chars().take(400).collect::<String>());
            let mut vs = vec![];
            if let Some(d) = rep.get("ok") {
                if st(d, "kind") != kind {
                    vs.push(v("class", ver, &format!("generic|{kind}|{}", st(d, "kind")), format!("the generic message type takes a {kind} for a {}; {ctx}", st(d, "kind"))));
                }
                let e = Exp { side, kind: &kind, ty: &ty, frame: &frame };
                let before = vs.len();
                check_enc(ver, &e, st(d, "enc"), &ctx, &mut vs);
                if vs.len() > before {
                    for x in &mut vs[before..] {
                        x.sig = x.sig.replacen("enc|", "enc|generic|", 1);
                    }
                } else {
                    p.text = canon(st(d, "enc"));
                }
            } else {
                vs.push(v(if rep.get("panic").is_some() { "panic" } else { "refused" }, ver, &format!("generic|{kind}|{ty}"), format!("the generic message type refuses a valid {kind}: {rep}; {ctx}")));
            }
            self.w.viols.extend(vs);
            self.hop(node, p);
            return;
        }
        let mut rep = ver.lib.call(&json!({"op": "recv", "side": side, "text": p.text, "dr": dr, "er": er, "deep": true}));
        let sent = rep["ok"]["enc"].as_str().map(str::to_string);
        if marker {
            if let Some(x) = &sent {
                rep["ok"]["enc"] = json!(unmarked(x));
            }
        }
        let mut vs = vec![];
        let e = Exp { side, kind: &kind, ty: &ty, frame: &frame };
        let enc = check_recv(ver, &e, &p.text, dr, er, &rep, &mut vs);
        let enc = enc.and(sent);
        let clean = vs.is_empty();
        self.w.viols.extend(vs);
        let Some(enc) = enc else { return };
        if !endpoint {
            p.text = if clean { canon(&enc) } else { p.text };
            self.hop(node, p);
            return;
        }
        // An endpoint acts on what the library told it, not on what the simulator knows.
        let told = &rep["ok"];
        let ei = if node == 0 { 0 } else { 1 };
        match st(told, "kind") {
            "request" => {
                if p.leg == 1 {
                    return;
                }
                self.ops[p.op].handled += 1;
                let key = id_key(&told["id"]);
                if let Some(&prev) = self.handled[ei].get(&key) {
                    self.w.bump("duplicate_suppressed");
                    if prev != p.op {
                        let x = v("reply", ver, "aliased id", format!("request {} is taken for the earlier request {}", self.ops[p.op].frame["id"], self.ops[prev].frame["id"]));
                        self.w.viols.push(x);
                        return;
                    }
                    if self.ops[p.op].reply_frame.is_some() {
                        self.reply(p.op, node, p.att);
                    }
                    return;
                }
                self.handled[ei].insert(key, p.op);
                let work = un(&self.plan["ops"][p.op], "work");
                let ep = self.epoch[node];
                self.w.after(work, Ev::Reply { op: p.op, node, epoch: ep, att: p.att });
            }
            "notification" => self.w.bump("notifications_delivered"),
            "response" | "error" => {
                let key = id_key(&told["id"]);
                match self.pending[ei].remove(&key) {
                    None => {
                        if !self.ops[p.op].done {
                            let x = v("reply", ver, "unmatched", format!("the reply to {} matches no pending request (id reported as {})", self.ops[p.op].frame["id"], told["id"]));
                            self.w.viols.push(x);
                        } else {
                            self.w.bump("late_duplicate_reply_ignored");
                        }
                    }
                    Some(o) => {
                        if o != p.op {
                            let x = v("reply", ver, "misdelivered", format!("the reply to request {} completed request {}", self.ops[p.op].frame["id"], self.ops[o].frame["id"]));
                            self.w.viols.push(x);
                        }
                        if self.ops[o].done {
                            let x = v("reply", ver, "twice", format!("request {} was completed twice", self.ops[o].frame["id"]));
                            self.w.viols.push(x);
                        }
                        self.ops[o].done = true;
                        self.w.bump("requests_completed");
                        if st(told, "kind") == "response" && ver.fam != Fam::A && ty != "custom" {
                            self.typed(ver, side, &ty, &p.text, &frame, dr);
                        }
                    }
                }
            }
            _ => {}
        }
    }

    fn typed(&mut self, ver: &'a Ver, side: &str, ty: &str, text: &str, frame: &Value, dr: u64) {
        let rep = ver.lib.call(&json!({"op": "typed", "side": side, "text": text, "dr": dr, "ty": ty}));
        let ctx = format!("reply read as {ty}: {}", text.chars().take(400).collect::<String>());
        let mut vs = vec![];
        if let Some(d) = rep.get("ok") {
            if d["id"] != frame["id"] {
                vs.push(v("id", ver, "typed", format!("id {} became {}; {ctx}", frame["id"], d["id"])));
            }
            let mut body = d["body"].clone();
            if self.plan.get("mixed").is_some() && frame["result"].get("resultType").is_none() && body["resultType"] == "complete" {
                body.as_object_mut().unwrap().remove("resultType");
            }
            if let Some((p, x)) = diff(&frame["result"], &body) {
                vs.push(v("as", ver, &format!("typed|{ty}|{}", generic_path(&p)), format!("{p} {x}; {ctx}")));
            }
        } else if rep.get("unsupported").is_none() {
            vs.push(v("as", ver, &format!("typed|{ty}"), format!("refused: {rep}; {ctx}")));
        }
        self.w.viols.extend(vs);
    }

    /// The handling peer answers (or answers again).
    fn reply(&mut self, op: usize, node: usize, att: u64) {
        let ver = self.ver(node);
        let side = self.author(op, 1);
        if self.ops[op].reply_frame.is_none() {
            let rp = self.ops[op].reply.clone();
            let mut frame = rp["frame"].clone();
            let mut r = self.w.choice(&format!("reply:{}", self.uid(op)));
            let mut text = None;
            if let Some(q) = rp.get("mkerr") {
                let mut q = q.clone();
                q["op"] = json!("mkerr");
                q["side"] = json!(side);
                q["id"] = self.ops[op].frame["id"].clone();
                let rep = ver.lib.call(&q);
                self.w.bump("errors_raised");
                (text, frame) = self.failure(ver, side, frame, &rep, &q);
            } else if let Some(q) = rp.get("toolerr") {
                let mut q = q.clone();
                q["op"] = json!("toolerr");
                q["id"] = self.ops[op].frame["id"].clone();
                let rep = ver.lib.call(&q);
                self.w.bump("tool_failures_raised");
                (text, frame) = self.tool_failure(ver, &q, &rep, frame);
            } else if let Some(er) = rp.get("build").and_then(Value::as_u64) {
                text = self.build(ver, side, st(&rp, "kind"), st(&rp, "ty"), &frame, er);
            }
            self.ops[op].reply_text = text.unwrap_or_else(|| scramble(&frame, &mut r, un(&rp, "style") as usize));
            self.w.shapes.insert(shape(&frame, hash_str(ver.idx as u64, st(&rp, "ty"))));
            self.ops[op].reply_frame = Some(frame);
        }
        self.w.note(&format!("reply {}", self.uid(op)), "");
        let text = self.ops[op].reply_text.clone();
        // each answer is a new transmission
        let copy = 1 + 8 * self.ops[op].handled;
        self.hop(node, Pkt { op, leg: 1, att, copy, text, damaged: false });
    }

    fn failure(&mut self, ver: &'a Ver, side: &str, frame: Value, rep: &Value, q: &Value) -> (Option<String>, Value) {
        if rep.get("unsupported").is_some() {
            return (None, frame);
        }
        let ctx = format!("raising {q}");
        let Some(enc) = rep["ok"]["enc"].as_str() else {
            let x = v(if rep.get("panic").is_some() { "panic" } else { "fail" }, ver, &format!("error|{}", st(q, "which")), format!("raising failed: {rep}; {ctx}"));
            self.w.viols.push(x);
            return (None, frame);
        };
        let got: Value = serde_json::from_str(enc).unwrap_or(Value::Null);
        let mut want = frame.clone();
        // a default message is the library's own; only that there is one is required
        if q.get("message").is_none() {
            if let (Some(m), true) = (got["error"]["message"].as_str(), q.get("message").is_none()) {
                if m.is_empty() && un(q, "route") != 2 && un(q, "route") != 3 {
                    let x = v("fail", ver, &format!("{}|empty message", st(q, "which")), format!("the error carries no message: {enc}; {ctx}"));
                    self.w.viols.push(x);
                }
                want["error"]["message"] = json!(m);
            }
        }
        if q.get("data").is_none() && frame["error"].get("data").is_none() {
            if let Some(d) = got["error"].get("data") {
                if st(q, "which") == "request_timeout" && un(q, "route") != 6 {
                    // the timeout condition reports the time waited
                    want["error"]["data"] = d.clone();
                    if !d.to_string().contains(&un(q, "timeout").to_string()) {
                        let x = v("fail", ver, "timeout|data", format!("the timeout error does not carry the time waited: {enc}; {ctx}"));
                        self.w.viols.push(x);
                    }
                }
            }
        }
        if let Some((p, x)) = diff(&want, &got) {
            let y = v("fail", ver, &format!("{}|{}", st(q, "which"), generic_path(&p)), format!("error as raised: {p} {x}; {ctx}; {side} sent {enc}"));
            self.w.viols.push(y);
        }
        if let Some(d) = rep["ok"]["display"].as_str() {
            let m = want["error"]["message"].as_str().unwrap_or("");
            if !d.contains(m) || !d.contains(&want["error"]["code"].to_string()) {
                let y = v("fail", ver, &format!("{}|display", st(q, "which")), format!("the printed error {d:?} does not carry its code and its message {m:?}; {ctx}"));
                self.w.viols.push(y);
            }
        }
        (Some(canon(enc)), want)
    }

    fn tool_failure(&mut self, ver: &'a Ver, q: &Value, rep: &Value, frame: Value) -> (Option<String>, Value) {
        let ctx = format!("tool failure {q}");
        let d = &rep["ok"];
        let (Some(enc), Some(text)) = (d["enc"].as_str(), d["text"].as_str()) else {
            let x = v(if rep.get("panic").is_some() { "panic" } else { "fail" }, ver, &format!("tool|{}", st(q, "which")), format!("raising failed: {rep}; {ctx}"));
            self.w.viols.push(x);
            return (None, frame);
        };
        let mut bad = |what: &str, t: String| {
            let x = v("fail", ver, &format!("tool|{}|{what}", st(q, "which")), format!("{t}; {ctx}"));
            self.w.viols.push(x);
        };
        let given = q.get("message").and_then(Value::as_str);
        let must: &[&str] = match st(q, "which") {
            "unknown" => &[st(q, "name")],
            // a blank tool name is itself the failure
            "invalid" if st(q, "name").trim().is_empty() => &[],
            "invalid" => &[st(q, "name").trim(), given.unwrap_or("")],
            "notask" => &[],
            _ => &[given.unwrap_or("")],
        };
        for m in must {
            if !text.contains(m) {
                bad("text", format!("the failure text {text:?} lacks {m:?}"));
            }
        }
        if matches!(st(q, "which"), "chain" | "msg") {
            let want = q.get("causes").cloned().unwrap_or(json!([]));
            if d["causes"] != want {
                bad("causes", format!("the failure {text:?} is caused by {want} and names {}", d["causes"]));
            }
        }
        if matches!(st(q, "which"), "io" | "msg" | "chain") && text != given.unwrap_or("") {
            bad("text", format!("the failure text is {text:?} instead of {given:?}"));
        }
        let got: Value = serde_json::from_str(enc).unwrap_or(Value::Null);
        let mut want = frame.clone();
        want["result"]["content"][0]["text"] = json!(text);
        if let Some((p, x)) = diff(&want, &got) {
            bad(&generic_path(&p), format!("tool result for the failure {text:?}: {p} {x}: {enc}"));
            return (None, want);
        }
        let rpc: Value = serde_json::from_str(st(d, "rpc")).unwrap_or(Value::Null);
        if rpc["id"] != frame["id"] || rpc["error"]["message"] != text || rpc["error"]["code"].as_i64().is_none() {
            bad("rpc", format!("the failure {text:?} raised as a protocol error is {}", st(d, "rpc")));
        }
        (Some(canon(enc)), want)
    }
}
