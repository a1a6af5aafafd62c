//! Byte streams: messages are written back to back by the library into a stream that chops, interrupts and fails, the
//! connection is cut and resumed, and the other end reads them with the library from a stream that does the same.
use crate::cat::*;
use crate::check::*;
use crate::jsonx::*;
use crate::net::*;
use crate::rng::*;
use crate::session::scramble;
use crate::world::*;
use crate::{Ctx, Outcome};
use serde_json::{json, Value};

pub enum Ev {
    Write { lane: usize, conn: u64 },
    Read { lane: usize, conn: u64 },
    Ack { lane: usize, upto: usize },
    Retry { lane: usize, conn: u64 },
    Down(usize, u64),
    Up(usize),
}

pub fn plan(ctx: &Ctx, seed: u64, prop: &str) -> Value {
    let mut rr = Rng::new(hash_str(seed, prop));
    let r = &mut rr;
    let v = &ctx.vers[r.below(6)];
    let mut g = gen_for(v, r);
    g.depth = g.depth.min(4);
    let mut used: [Vec<Value>; 2] = [vec![], vec![]];
    let mut ops = vec![];
    let many = [r.p(0.35), r.p(0.35)];
    let both = r.p(0.5);
    for u in 0..r.scale(1, 10, 0.002, 120) {
        if r.p(0.3) {
            g = gen_for(v, r);
            g.depth = g.depth.min(4);
        }
        let side = if both { r.below(2) } else { 0 };
        let s = ["c", "s"][side];
        let (kind, ty, frame) = item(v, &g, r, s, &mut used[side]);
        ops.push(json!({"u": u, "from": s, "kind": kind, "ty": ty, "frame": frame, "style": r.below(4), "join": many[side] && r.p(0.4), "wrap": many[side] && r.p(0.4)}));
    }
    let mut events = vec![];
    if r.p(0.3) {
        events.push(json!({"e": "crash", "n": r.below(2), "t": r.below(2000), "down": 1 + r.below(500)}));
    }
    json!({"scn": "stream", "prop": prop, "seed": seed, "vers": [v.idx], "net_seed": r.next() >> 8, "prof": Profile::draw(r, 0.0), "rto": *r.pick(&[200u64, 700]), "heal": 3000, "many": many,
           "calm": *r.pick(&[0.2, 0.5, 0.8]), "ops": ops, "events": events, "faults": null})
}

struct Unit {
    frame: Value,
    style: usize,
    uid: u64,
}
struct Conn {
    first: usize,
    /// what the writer put on the stream, and where each unit ends
    bytes: Vec<u8>,
    ends: Vec<usize>,
    /// ended by the writer's failure or crash
    broken: bool,
    over: bool,
}
struct Lane {
    units: Vec<Unit>,
    many: bool,
    acked: usize,
    delivered: usize,
    next: usize,
    conns: Vec<Conn>,
}
struct S<'a> {
    ver: &'a Ver,
    plan: &'a Value,
    w: World<Ev>,
    lanes: Vec<Lane>,
    up: [bool; 2],
}

pub fn run(ctx: &Ctx, plan: &Value, trace: bool) -> Outcome {
    let mut lanes: Vec<Lane> = (0..2).map(|i| Lane { units: vec![], many: plan["many"][i] == true, acked: 0, delivered: 0, next: 0, conns: vec![] }).collect();
    for o in plan["ops"].as_array().unwrap() {
        let l = &mut lanes[if st(o, "from") == "c" { 0 } else { 1 }];
        let joins = l.many && o["join"] == true && l.units.last().is_some_and(|u| u.frame.is_array());
        if joins {
            l.units.last_mut().unwrap().frame.as_array_mut().unwrap().push(o["frame"].clone());
        } else {
            let frame = if l.many && (o["wrap"] == true || o["join"] == true) { json!([o["frame"]]) } else { o["frame"].clone() };
            l.units.push(Unit { frame, style: un(o, "style") as usize, uid: un(o, "u") });
        }
    }
    let mut s = S { ver: &ctx.vers[plan["vers"][0].as_u64().unwrap() as usize], plan, w: World::new(plan, trace), lanes, up: [true; 2] };
    for lane in 0..2 {
        s.connect(lane);
    }
    for e in plan["events"].as_array().unwrap() {
        s.w.at(un(e, "t"), Ev::Down(un(e, "n") as usize, un(e, "down")));
    }
    s.go();
    for lane in 0..2 {
        let (d, n) = (s.lanes[lane].delivered, s.lanes[lane].units.len());
        if d < n && s.w.viols.is_empty() {
            let t = format!("{d} of {n} messages were delivered although faults stopped; next: {}", s.lanes[lane].units[d].frame);
            s.bad("live", t);
        }
    }
    Outcome::of(s.w)
}

/// Steps of an input or output plan.
fn steps(r: &mut Rng, n: usize, hard: Option<(usize, i64)>, eintr: f64, short: f64) -> Vec<i64> {
    let mut v = vec![];
    for i in 0..n {
        if let Some((k, x)) = hard {
            if i == k {
                v.push(x);
                return v;
            }
        }
        if r.p(eintr) {
            v.push(-1);
        } else if r.p(short) {
            v.push(1 + r.below(7) as i64);
        } else {
            v.push(100_000);
        }
    }
    if let Some((_, x)) = hard {
        v.push(x);
    }
    v
}

impl S<'_> {
    fn bad(&mut self, what: &str, text: String) {
        let x = v("stream", self.ver, what, text);
        self.w.viols.push(x);
    }
    fn connect(&mut self, lane: usize) {
        let l = &mut self.lanes[lane];
        if l.acked >= l.units.len() || !self.up[lane] {
            return;
        }
        let id = l.conns.len() as u64;
        l.next = l.acked;
        l.conns.push(Conn { first: l.acked, bytes: vec![], ends: vec![], broken: false, over: false });
        if id > 0 {
            self.w.bump("reconnect");
        }
        self.w.note(&format!("connect {lane} {id} from {}", self.lanes[lane].acked), "");
        self.w.after(1, Ev::Write { lane, conn: id });
    }
    fn go(&mut self) {
        while let Some(e) = self.w.pop() {
            if self.w.steps > 5000 {
                return;
            }
            match e {
                Ev::Write { lane, conn } => self.write(lane, conn as usize),
                Ev::Read { lane, conn } => self.read(lane, conn as usize),
                Ev::Ack { lane, upto } => {
                    let l = &mut self.lanes[lane];
                    l.acked = l.acked.max(upto);
                }
                Ev::Retry { lane, conn } => {
                    if self.lanes[lane].conns.len() as u64 == conn + 1 && self.w.now < self.w.heal + 20_000 {
                        self.connect(lane);
                    }
                }
                Ev::Down(k, down) => {
                    if self.up[k] {
                        self.w.bump("crash");
                        self.w.note(&format!("crash {k}"), "");
                        self.up[k] = false;
                        // the connection this end was writing breaks off where it is
                        if let Some(c) = self.lanes[k].conns.last() {
                            if !c.over {
                                let id = self.lanes[k].conns.len() - 1;
                                self.lanes[k].conns[id].broken = true;
                                self.finish(k, id);
                            }
                        }
                        self.w.after(down, Ev::Up(k));
                    }
                }
                Ev::Up(k) => {
                    self.w.bump("restart");
                    self.up[k] = true;
                    self.connect(k);
                }
            }
        }
    }
    /// The writer is done with a connection, one way or the other: what it wrote is on its way.
    fn finish(&mut self, lane: usize, conn: usize) {
        self.lanes[lane].conns[conn].over = true;
        let key = format!("c{lane}:{conn}");
        post(&mut self.w, &key, "", |_, _| Ev::Read { lane, conn: conn as u64 });
        let rto = un(self.plan, "rto").max(1);
        self.w.after(rto + un(&self.plan["prof"], "lat") * 4, Ev::Retry { lane, conn: conn as u64 });
    }
    fn write(&mut self, lane: usize, conn: usize) {
        if !self.up[lane] || self.lanes[lane].conns[conn].over {
            return;
        }
        let l = &self.lanes[lane];
        if l.next >= l.units.len() {
            self.finish(lane, conn);
            return;
        }
        let u = &l.units[l.next];
        let key = format!("w{lane}:{conn}:{}", u.uid);
        let (frame, many, uid) = (u.frame.clone(), l.many, u.uid);
        let calm = self.plan["calm"].as_f64().unwrap_or(0.5);
        let faulty = self.w.faulty();
        let f = self.w.fate(&key, |r| {
            if !faulty || r.p(calm) {
                return None;
            }
            let at = [0, r.below(4), r.below(40)];
            let hard = if r.p(0.35) { Some((*r.pick(&at), *r.pick(&[-2i64, -3]))) } else { None };
            let (n, a, b) = (r.below(60), *r.pick(&[0.0, 0.1, 0.5]), *r.pick(&[0.0, 0.3, 1.0]));
            Some(json!(steps(r, n, hard, a, b)))
        });
        let mut r = self.w.choice(&format!("how:{key}"));
        let text = scramble(&frame, &mut r, u.style);
        let q = json!({"op": "write", "side": (["c", "s"][lane]), "text": text, "dr": r.below(5), "how": r.below(2), "many": many as u64, "plan": f});
        let rep = self.ver.lib.call(&q);
        let ctx = format!("writing {} by way {} with plan {}", short(&text, 500), q["how"], q["plan"]);
        self.w.bump("frames_handled");
        self.w.note(&format!("write {lane}:{conn}:{uid}"), st(&rep, "written"));
        let Some(ok) = rep.get("ok").and_then(Value::as_bool) else {
            if rep.get("panic").is_some() {
                let x = v("panic", self.ver, "write", format!("panic: {rep}; {ctx}"));
                self.w.viols.push(x);
            } else {
                self.bad("refused", format!("a valid message was refused: {rep}; {ctx}"));
            }
            self.lanes[lane].conns[conn].broken = true;
            self.finish(lane, conn);
            return;
        };
        for x in rep["fired"].as_array().unwrap() {
            self.w.bump(match x.as_i64() {
                Some(-1) => "interrupted",
                Some(-2) => "disk_full",
                Some(-3) => "zero_write",
                _ => "short_write",
            });
        }
        let hard = rep["fired"].as_array().unwrap().iter().any(|x| x == -2 || x == -3);
        let full = st(&rep, "full").to_string();
        let n = un(&rep, "bytes") as usize;
        let written = st(&rep, "written").to_string();
        if ok && hard {
            self.bad("write error hidden", format!("a failed write is reported as success; {ctx}"));
        }
        if !ok && !hard {
            self.bad("write error invented", format!("a write without a lasting fault failed: {}; {ctx}", rep["err"]));
        }
        if ok && !hard && n != full.len() {
            self.bad("incomplete", format!("{n} of {} bytes were written, reported as success; {ctx}", full.len()));
        }
        if n > full.len() || String::from_utf8_lossy(&full.as_bytes()[..n]) != written {
            self.bad("not a prefix", format!("what was written, {}, is no prefix of the message {}; {ctx}", short(&written, 300), short(&full, 300)));
            self.lanes[lane].conns[conn].broken = true;
            self.finish(lane, conn);
            return;
        }
        match serde_json::from_str::<Value>(&full) {
            Ok(got) => {
                if let Some((p, x)) = diff(&frame, &got) {
                    self.bad(&format!("content|{}", generic_path(&p)), format!("the message is written with {p} {x}; {ctx}"));
                }
            }
            Err(x) => self.bad("content|unparsable", format!("the message is written as something that is not JSON ({x}): {}; {ctx}", short(&full, 300))),
        }
        let c = &mut self.lanes[lane].conns[conn];
        c.bytes.extend_from_slice(&full.as_bytes()[..n]);
        if ok && n == full.len() {
            c.ends.push(c.bytes.len());
            let sep = *r.pick(&["", "\n", "", " ", "\r\n", "\n\n"]);
            c.bytes.extend_from_slice(sep.as_bytes());
            self.lanes[lane].next += 1;
            let d = r.below(20) as u64;
            self.w.after(d, Ev::Write { lane, conn: conn as u64 });
        } else {
            c.broken = true;
            self.finish(lane, conn);
        }
    }
    fn read(&mut self, lane: usize, conn: usize) {
        let to = 1 - lane;
        if !self.up[to] {
            self.w.bump("lost_to_crashed_node");
            return;
        }
        let me = self.w.nth(&format!("r{lane}:{conn}"));
        let c = &self.lanes[lane].conns[conn];
        let (first, bytes, ends) = (c.first, c.bytes.clone(), c.ends.clone());
        let n = bytes.len();
        let calm = self.plan["calm"].as_f64().unwrap_or(0.5);
        let faulty = self.w.faulty();
        let f = self.w.fate(&me, |r| {
            if !faulty || r.p(calm) {
                return None;
            }
            let mut f = json!({});
            let buf = if r.p(0.5) { 0 } else { *r.pick(&[1usize, 2, 3, 16, 64, 4096]) };
            f["buf"] = json!(buf);
            if r.p(0.3) {
                f["cut"] = json!(r.below(n + 1));
            }
            let hard = if r.p(0.4) { Some((r.below(if buf > 8 { n / buf + 2 } else { n + 1 }), *r.pick(&[-2i64, -3]))) } else { None };
            let (a, b) = (*r.pick(&[0.0, 0.02, 0.3]), *r.pick(&[0.0, 0.3, 1.0]));
            let k = n.min(400);
            f["plan"] = json!(steps(r, if hard.is_some() { n + 2 } else { k }, hard, a, b));
            Some(f)
        });
        let f = f.unwrap_or(json!({}));
        let many = self.lanes[lane].many;
        let avail = f.get("cut").and_then(Value::as_u64).map(|x| x as usize).unwrap_or(n).min(n);
        let text = String::from_utf8_lossy(&bytes).into_owned();
        // a torn last character is cut from the whole text
        let (text, cut) = match std::str::from_utf8(&bytes) {
            Ok(_) => (text, avail),
            Err(e) => (text, avail.min(e.valid_up_to())),
        };
        if avail < n {
            self.w.bump("lost_tail");
        }
        let q = json!({"op": "read", "side": (["c", "s"][lane]), "text": text, "cut": cut, "plan": f["plan"], "buf": f["buf"], "many": many as u64});
        let rep = self.ver.lib.call(&q);
        let brief = |x: &Value| if x.as_array().map_or(0, Vec::len) > 40 { format!("(a plan of {} steps)", x.as_array().unwrap().len()) } else { x.to_string() };
        let ctx = format!("reading {} bytes ({} whole messages) of {} with plan {} buffer {}", cut, ends.iter().filter(|e| **e <= cut).count(), short(&text, 500), brief(&q["plan"]), q["buf"]);
        self.w.bump("frames_handled");
        self.w.note(&format!("read {me}"), &rep.to_string());
        if rep.get("panic").is_some() {
            let x = v("panic", self.ver, "read", format!("panic: {rep}; {ctx}"));
            self.w.viols.push(x);
            return;
        }
        let mut end_early = false;
        let mut broke = false;
        for x in rep["fired"].as_array().unwrap() {
            self.w.bump(match x.as_i64() {
                Some(-1) => "interrupted",
                Some(-2) => {
                    broke = true;
                    "io_error"
                }
                _ => {
                    end_early = true;
                    "early_eof"
                }
            });
        }
        if q["plan"].is_array() {
            self.w.bump("short_read");
        }
        let limit = if broke || end_early { un(&rep, "pos") as usize } else { cut };
        let whole = ends.iter().filter(|e| **e <= limit).count();
        let got = rep["got"].as_array().unwrap().clone();
        let from = ends[..whole].last().copied().unwrap_or(0);
        let partial = !String::from_utf8_lossy(&bytes[from..limit.max(from)]).trim().is_empty();
        for (i, m) in got.iter().enumerate() {
            let m: Value = serde_json::from_str(m.as_str().unwrap_or("")).unwrap_or(Value::Null);
            if i >= whole {
                self.bad("invented", format!("message {i}, {}, was delivered although only {whole} arrived whole; {ctx}", short(&m.to_string(), 300)));
                break;
            }
            let want = self.lanes[lane].units[first + i].frame.clone();
            if let Some((p, x)) = diff(&want, &m) {
                self.bad(&format!("read|{}", generic_path(&p)), format!("message {i} was read with {p} {x}; {ctx}"));
                return;
            }
        }
        if got.len() < whole {
            self.bad("missing", format!("{} of {whole} messages that arrived whole were delivered ({}); {ctx}", got.len(), rep["error"]));
        }
        if (broke || partial) && rep["error"].is_null() {
            self.bad("read error hidden", format!("the stream {} and no failure is reported; {ctx}", if broke { "failed" } else { "ended inside a message" }));
        }
        if !broke && !partial && !rep["error"].is_null() {
            self.bad("read error invented", format!("a failure is reported where there was none: {}; {ctx}", rep["error"]));
        }
        let upto = first + got.len().min(whole);
        let l = &mut self.lanes[lane];
        if upto > l.delivered {
            if first < l.delivered {
                self.w.bump("duplicate_suppressed");
            }
            let k = upto - self.lanes[lane].delivered;
            self.lanes[lane].delivered = upto;
            self.w.add("items_delivered", k as u64);
        }
        let key = format!("a{me}");
        let d = self.lanes[lane].delivered;
        post(&mut self.w, &key, "", |_, _| Ev::Ack { lane, upto: d });
    }
}
