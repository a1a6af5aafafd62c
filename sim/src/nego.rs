//! Version negotiation: clients and servers with different sets of versions find one they share, over faulty links, across
//! restarts and upgrades. Every name goes through the library: parsed, ordered, printed; every frame is the library's.
use crate::cat::*;
use crate::check::*;
use crate::jsonx::*;
use crate::net::*;
use crate::rng::*;
use crate::schema::Mode;
use crate::session::scramble;
use crate::world::*;
use crate::{Ctx, Outcome};
use serde_json::{json, Value};
use std::collections::HashMap;

pub enum Ev {
    Start(usize),
    Arrive { op: usize, m: usize, text: String, server: bool },
    Again { op: usize, m: usize, n: u64, epoch: u64 },
    Down { op: usize, server: bool, down: u64, set: Option<Value> },
    Up { op: usize, server: bool, set: Option<Value> },
}

const STRANGE: &[&str] = &["2023-01-01", "2027-03-01", "draft", "latest", "", "2025-06-18 ", "2025-6-18", "DRAFT-2026-v1", "v2025-11-25", "2025_03_26", "é", "2024-11-05\n", "20250618"];

/// A name that is no version's: one of the list above, or a version's name with a small change, or anything.
fn strange_name(r: &mut Rng) -> String {
    if r.p(0.3) {
        return r.pick(STRANGE).to_string();
    }
    let base = r.pick(&WIRE).to_string();
    const MARKS: &[&str] = &["-RC", "-RC1", "-rc", "-draft", "-DRAFT", "-beta", ".0", "-00", "Z", "T00:00:00Z", " ", "\n", "\t", "\0", "/", "+x", "-", "v", "0", ";q=1", ",2026-07-28", "é"];
    let s = match r.below(10) {
        0..=3 => format!("{base}{}", r.pick(MARKS)),
        4 => format!("{}{base}", r.pick(MARKS)),
        5 => {
            let mut c: Vec<char> = base.chars().collect();
            let k = r.below(c.len());
            c[k] = *r.pick(&['0', '1', '9', '-', '_', '.', '٣', 'd', ' ']);
            c.into_iter().collect()
        }
        6 => {
            let mut c: Vec<char> = base.chars().collect();
            c.remove(r.below(c.len()));
            c.into_iter().collect()
        }
        7 => base.to_lowercase(),
        8 => base.split('-').rev().collect::<Vec<_>>().join("-"),
        _ => crate::schema::wild_string(r),
    };
    if WIRE.contains(&s.as_str()) {
        format!("{s}?")
    } else {
        s
    }
}

pub fn plan(_ctx: &Ctx, r: &mut Rng, seed: u64, prop: &str) -> Value {
    let set = |r: &mut Rng, strange: bool| {
        let p = *r.pick(&[0.3, 0.5, 0.8]);
        let mut v: Vec<Value> = WIRE.iter().filter(|_| r.p(p)).map(|x| json!(x)).collect();
        if v.is_empty() {
            v.push(json!(*r.pick(&WIRE)));
        }
        if strange && r.p(0.3) {
            v.push(json!(strange_name(r)));
        }
        r.shuffle(&mut v);
        json!(v)
    };
    let mut ops = vec![];
    for u in 0..r.range(1, 4) {
        ops.push(json!({"u": u, "t": r.below(800), "c": set(r, false), "s": set(r, true)}));
    }
    let mut events = vec![];
    for _ in 0..r.below(4) {
        let k = r.below(ops.len());
        let mut e = json!({"e": "crash", "n": k, "server": r.p(0.5), "t": r.below(3000), "down": 1 + r.below(500)});
        if e["server"] == true && r.p(0.5) {
            e["set"] = set(r, true);
        }
        events.push(e);
    }
    json!({"scn": "nego", "prop": prop, "seed": seed, "vers": [0, 1, 2, 3, 4, 5], "net_seed": r.next() >> 8, "prof": Profile::draw(r, 0.0), "rto": *r.pick(&[150u64, 400]), "heal": 3500,
           "names": (0..3).map(|_| strange_name(r)).collect::<Vec<_>>(), "ops": ops, "events": events, "faults": null})
}

struct Msg {
    server: bool,
    kind: &'static str,
    ty: &'static str,
    frame: Value,
    text: String,
    name: String,
    /// the request this answers
    re: Option<usize>,
    /// the version whose library the client uses for this exchange
    by: usize,
}
struct Pair {
    c: Vec<String>,
    s: Vec<String>,
    up: [bool; 2],
    epoch: u64,
    attempt: u64,
    pending: HashMap<String, usize>,
    /// versions still to be offered, newest first
    left: Vec<String>,
    agreed: Vec<Option<String>>,
    resting: bool,
}
struct N<'a> {
    ctx: &'a Ctx,
    plan: &'a Value,
    w: World<Ev>,
    p: Vec<Pair>,
    msgs: Vec<Msg>,
    ids: u64,
}

fn names(v: &Value) -> Vec<String> {
    v.as_array().into_iter().flatten().map(|x| x.as_str().unwrap_or("").to_string()).collect()
}

pub fn run(ctx: &Ctx, plan: &Value, trace: bool) -> Outcome {
    let mut n = N { ctx, plan, w: World::new(plan, trace), p: vec![], msgs: vec![], ids: 0 };
    for (i, o) in plan["ops"].as_array().unwrap().iter().enumerate() {
        n.p.push(Pair { c: names(&o["c"]), s: names(&o["s"]), up: [true; 2], epoch: 0, attempt: 0, pending: HashMap::new(), left: vec![], agreed: vec![], resting: false });
        n.w.at(un(o, "t"), Ev::Start(i));
    }
    for e in plan["events"].as_array().unwrap() {
        let op = un(e, "n") as usize;
        if op < n.p.len() {
            n.w.at(un(e, "t"), Ev::Down { op, server: e["server"] == true, down: un(e, "down"), set: e.get("set").cloned() });
        }
    }
    n.naming();
    n.go();
    for i in 0..n.p.len() {
        if !n.p[i].resting && n.w.viols.is_empty() {
            let x = format!("client {:?} and server {:?} never came to a conclusion", n.p[i].c, n.p[i].s);
            n.bad(0, "never concluded", x);
        }
    }
    Outcome::of(n.w)
}

fn idx(name: &str) -> Option<usize> {
    WIRE.iter().position(|x| *x == name)
}

impl N<'_> {
    fn bad(&mut self, by: usize, what: &str, text: String) {
        let x = v("nego", &self.ctx.vers[by], what, text);
        self.w.viols.push(x);
    }
    /// The names by themselves: they print as they parse, are ordered by age, and nothing else is a name.
    fn naming(&mut self) {
        let mut r = self.w.choice("naming");
        let by = r.below(6);
        let lib = &self.ctx.vers[by].lib;
        let l = lib.call(&json!({"op": "proto", "what": "list"}))["ok"].clone();
        let want = json!({"all": WIRE, "stable": WIRE[..5], "latest": WIRE[4], "own": WIRE[by.min(4)]});
        if let Some((p, x)) = diff(&want, &l) {
            self.bad(by, &format!("list|{}", generic_path(&p)), format!("the supported versions are given as {l}: {p} {x}"));
        }
        for n in WIRE {
            let rep = lib.call(&json!({"op": "proto", "what": "parse", "text": n}));
            if rep["ok"] != n || rep["owned"] != n {
                self.bad(by, "name", format!("version {n} parses and prints as {rep}"));
            }
        }
        for (i, a) in WIRE.iter().enumerate() {
            for (j, b) in WIRE.iter().enumerate() {
                let rep = lib.call(&json!({"op": "proto", "what": "cmp", "a": a, "b": b}))["ok"].clone();
                if rep != json!({"lt": i < j, "eq": i == j, "gt": i > j}) {
                    self.bad(by, "order", format!("{a} and {b} compare as {rep}"));
                }
            }
        }
        for s in names(&self.plan["names"]) {
            let rep = lib.call(&json!({"op": "proto", "what": "parse", "text": s}));
            if let Some(p) = rep["ok"].as_str() {
                if p != s {
                    self.bad(by, "strange name", format!("{s:?} is taken for version {p}"));
                }
            } else {
                let m = st(&rep, "err");
                if !m.contains(&s) || WIRE[..5].iter().any(|x| !m.contains(x)) {
                    self.bad(by, "refusal", format!("refusing {s:?} the library does not name it and the supported versions: {m:?}"));
                }
            }
        }
    }
    fn parse(&mut self, name: &str) -> Option<String> {
        let rep = self.ctx.vers[3].lib.call(&json!({"op": "proto", "what": "parse", "text": name}));
        rep["ok"].as_str().map(str::to_string)
    }
    /// Newest first, by the library's order.
    fn sorted(&mut self, l: &[String]) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        for x in l {
            let Some(x) = self.parse(x) else { continue };
            let mut k = 0;
            while k < v.len() && self.ctx.vers[3].lib.call(&json!({"op": "proto", "what": "cmp", "a": x, "b": v[k]}))["ok"]["lt"] == true {
                k += 1;
            }
            v.insert(k, x);
        }
        v
    }
    fn go(&mut self) {
        while let Some(e) = self.w.pop() {
            if self.w.steps > 8_000 || self.w.viols.len() > 30 {
                return;
            }
            match e {
                Ev::Start(op) => {
                    if self.p[op].up[0] && self.p[op].attempt == 0 {
                        self.begin(op);
                    }
                }
                Ev::Arrive { op, m, text, server } => {
                    if !self.p[op].up[server as usize] {
                        self.w.bump("lost_to_crashed_node");
                    } else if server {
                        self.at_server(op, m, text);
                    } else {
                        self.at_client(op, m, text);
                    }
                }
                Ev::Again { op, m, n, epoch } => {
                    let id = id_key(&self.msgs[m].frame["id"]);
                    if self.p[op].up[0] && self.p[op].epoch == epoch && self.p[op].pending.get(&id) == Some(&m) && self.w.now < self.w.heal + 20_000 {
                        self.w.bump("retransmission");
                        self.transmit(op, m, n + 1);
                    }
                }
                Ev::Down { op, server, down, set } => {
                    if self.p[op].up[server as usize] {
                        self.w.bump("crash");
                        self.w.note(&format!("crash {op} {server}"), "");
                        self.p[op].up[server as usize] = false;
                        if !server {
                            self.p[op].epoch += 1;
                            self.p[op].pending.clear();
                            self.p[op].resting = false;
                        }
                        self.w.after(down, Ev::Up { op, server, set });
                    }
                }
                Ev::Up { op, server, set } => {
                    self.w.bump("restart");
                    self.p[op].up[server as usize] = true;
                    if let Some(s) = set {
                        self.w.bump("upgrade");
                        self.p[op].s = names(&s);
                    }
                    // a new connection: the client starts over, whoever was away
                    if self.p[op].up[0] {
                        self.p[op].epoch += 1;
                        self.p[op].pending.clear();
                        self.p[op].resting = false;
                        self.begin(op);
                    }
                }
            }
        }
    }
    fn begin(&mut self, op: usize) {
        self.p[op].attempt += 1;
        self.w.bump("negotiations");
        let c = self.p[op].c.clone();
        self.p[op].left = self.sorted(&c);
        self.offer(op);
    }
    /// Offer the newest version not yet refused.
    fn offer(&mut self, op: usize) {
        if self.p[op].left.is_empty() {
            self.rest(op, None);
            return;
        }
        let name = self.p[op].left.remove(0);
        let Some(by) = idx(&name) else { return };
        self.ids += 1;
        let id = if self.ids % 2 == 0 { json!(self.ids) } else { json!(format!("n{}", self.ids)) };
        let mut r = self.w.choice(&format!("offer:{op}:{}:{name}", self.p[op].attempt));
        let ver = &self.ctx.vers[by];
        let (ty, peers): (&'static str, &[usize]) = if by < 4 { ("InitializeRequest", &[0, 1, 2, 3]) } else { ("DiscoverRequest", &[4, 5]) };
        let mut body = if by < 4 { json!({"protocolVersion": name, "capabilities": {}, "clientInfo": {"name": "c", "version": "1"}}) } else { json!({"_meta": {"io.modelcontextprotocol/protocolVersion": name, "io.modelcontextprotocol/clientCapabilities": {}}}) };
        for _ in 0..4 {
            let g = gen_for(ver, &mut r);
            let Some(mut b) = ver.body(&g, &mut r, ty) else { continue };
            if by < 4 {
                b["protocolVersion"] = json!(name);
            } else {
                b["_meta"]["io.modelcontextprotocol/protocolVersion"] = json!(name);
            }
            if peers.iter().all(|p| self.ctx.vers[*p].sch.ok(self.ctx.vers[*p].params_schema(ty).0, &b, Mode::Closed)) {
                body = b;
                break;
            }
        }
        let f = frame_request(&id, ver.method_of(ty), Some(body));
        let m = self.put(op, false, "request", ty, f, None, by, by);
        self.p[op].pending.insert(id_key(&id), m);
        self.transmit(op, m, 0);
    }
    #[allow(clippy::too_many_arguments)]
    fn put(&mut self, op: usize, server: bool, kind: &'static str, ty: &'static str, frame: Value, re: Option<usize>, by: usize, maker: usize) -> usize {
        let name = self.w.nth(&format!("{}:{ty}:{kind}", un(&self.plan["ops"][op], "u")));
        let mut r = self.w.choice(&format!("text:{name}"));
        let style = r.below(4);
        let mut text = scramble(&frame, &mut r, style);
        let ver = &self.ctx.vers[maker];
        if kind == "request" && r.p(0.5) || kind == "response" && r.p(0.5) {
            // made from parts by the library
            let side = ["c", "s"][server as usize];
            let body = if kind == "response" {
                frame["result"].clone()
            } else if ver.fam == Fam::A {
                json!({"method": frame["method"], "params": frame["params"]})
            } else {
                frame["params"].clone()
            };
            let q = json!({"op": "build", "side": side, "kind": kind, "ty": ty, "body": body, "id": frame["id"], "er": r.below(9)});
            let rep = ver.lib.call(&q);
            if let Some(enc) = rep["ok"]["enc"].as_str() {
                let e = Exp { side, kind, ty, frame: &frame };
                let mut vs = vec![];
                check_enc(ver, &e, enc, &format!("built by {q}"), &mut vs);
                self.w.viols.extend(vs);
                text = canon(enc);
            } else {
                self.bad(maker, "building refused", format!("{q} gives {rep}"));
            }
        }
        self.msgs.push(Msg { server, kind, ty, frame, text, name, re, by });
        self.msgs.len() - 1
    }
    fn transmit(&mut self, op: usize, m: usize, n: u64) {
        let (name, text, server) = (self.msgs[m].name.clone(), self.msgs[m].text.clone(), !self.msgs[m].server);
        post(&mut self.w, &format!("{name}~{n}"), &text, |t, _| Ev::Arrive { op, m, text: t, server });
        if server && self.msgs[m].kind == "request" {
            let epoch = self.p[op].epoch;
            self.w.after(un(self.plan, "rto").max(1), Ev::Again { op, m, n, epoch });
        }
    }
    /// Hear a frame with the library of one version; what that version does not define is custom to it.
    fn hears(&mut self, m: usize, text: &str, by: usize) -> Option<(Value, Value)> {
        let (server, kind, ty, frame, name) = (self.msgs[m].server, self.msgs[m].kind, self.msgs[m].ty, self.msgs[m].frame.clone(), self.msgs[m].name.clone());
        let ver = &self.ctx.vers[by];
        let side = ["c", "s"][server as usize];
        let ty = crate::mixed::ty_at(ver, side, kind, ty, &frame);
        let key = self.w.nth(&format!("h{name}"));
        let e = Exp { side, kind, ty, frame: &frame };
        let before = self.w.viols.len();
        let got = hear(&mut self.w, ver, &e, text, &key);
        if ver.fam == Fam::A && ty == "custom" {
            // (how custom messages are encoded there is a known finding of other properties)
            let keep = self.w.viols.split_off(before);
            self.w.viols.extend(keep.into_iter().filter(|x| !x.sig.contains("wrapped again")));
            return got.map(|(told, _)| (told, frame));
        }
        let (told, enc) = got?;
        let x = serde_json::from_str(&enc).unwrap_or(Value::Null);
        Some((told, x))
    }
    fn at_server(&mut self, op: usize, m: usize, text: String) {
        let s = self.p[op].s.clone();
        let mut mine: Vec<String> = vec![];
        for x in self.sorted(&s) {
            if idx(&x).is_some() {
                mine.push(x);
            }
        }
        let old: Vec<usize> = mine.iter().filter_map(|x| idx(x)).filter(|i| *i < 4).collect();
        let new: Vec<usize> = mine.iter().filter_map(|x| idx(x)).filter(|i| *i >= 4).collect();
        let ty = self.msgs[m].ty;
        let mut r = self.w.choice(&format!("srv:{}", self.msgs[m].name));
        let by = match ty {
            "DiscoverRequest" if !new.is_empty() => *r.pick(&new),
            "DiscoverRequest" => *r.pick(&old),
            _ if !old.is_empty() => *r.pick(&old),
            _ => *r.pick(&new),
        };
        let Some((told, got)) = self.hears(m, &text, by) else { return };
        if self.msgs[m].kind == "notification" {
            self.w.bump("sessions_opened");
            return;
        }
        let id = self.msgs[m].frame["id"].clone();
        let client = self.msgs[m].by;
        let ver = &self.ctx.vers[by];
        if st(&told, "variant") == "custom" {
            // unknown to every version this server has
            let f = if ty == "InitializeRequest" {
                self.unsupported(by, &id, &s, st(&got["params"], "protocolVersion"), &mut r)
            } else {
                frame_error(&id, json!({"code": -32601, "message": "Method not found"}))
            };
            self.answer(op, m, "error", "error", f, client, by);
            return;
        }
        let asked = if by < 4 { got["params"]["protocolVersion"].clone() } else { got["params"]["_meta"]["io.modelcontextprotocol/protocolVersion"].clone() };
        let asked = asked.as_str().unwrap_or("").to_string();
        let ok = self.parse(&asked).is_some_and(|a| s.contains(&a));
        let peers: &[usize] = if by < 4 { &[0, 1, 2, 3] } else { &[4, 5] };
        let rt: &'static str = if by < 4 { "InitializeResult" } else { "DiscoverResult" };
        if by >= 4 && !ok {
            let f = self.unsupported(by, &id, &s, &asked, &mut r);
            self.answer(op, m, "error", "error", f, client, by);
            return;
        }
        let say = if ok { asked } else { mine.iter().find(|x| idx(x).is_some_and(|i| i < 4)).cloned().unwrap_or_default() };
        let mut body = if by < 4 { json!({"protocolVersion": say, "capabilities": {}, "serverInfo": {"name": "s", "version": "2"}}) } else { json!({"supportedVersions": s, "capabilities": {}, "resultType": "complete", "ttlMs": 0, "cacheScope": "private"}) };
        for _ in 0..4 {
            let g = gen_for(ver, &mut r);
            let mut b = ver.result(&g, &mut r, rt);
            if by < 4 {
                b["protocolVersion"] = json!(say);
            } else {
                b["supportedVersions"] = json!(s);
            }
            if peers.iter().all(|p| self.ctx.vers[*p].sch.ok(self.ctx.vers[*p].sch.get(rt), &b, Mode::Closed)) {
                body = b;
                break;
            }
        }
        self.answer(op, m, "response", rt, frame_response(&id, body), client, by);
    }
    /// The refusal that names the server's own versions, raised through the library.
    fn unsupported(&mut self, by: usize, id: &Value, s: &[String], asked: &str, r: &mut Rng) -> Value {
        let data = json!({"supported": s, "requested": asked});
        let f = frame_error(id, json!({"code": -32022, "message": "Unsupported protocol version", "data": data}));
        let q = json!({"op": "mkerr", "side": "s", "which": "unsupported_protocol_version", "route": *r.pick(&[2, 3, 5, 5]), "message": "Unsupported protocol version", "data": data, "id": id});
        let rep = self.ctx.vers[by].lib.call(&q);
        self.w.bump("version_refused");
        let got: Value = serde_json::from_str(st(&rep["ok"], "enc")).unwrap_or(Value::Null);
        if let Some((p, x)) = diff(&f, &got) {
            self.bad(by, &format!("refusal|{}", generic_path(&p)), format!("refusing version {asked:?}: {p} {x}; {q} gives {rep}"));
        }
        f
    }
    fn answer(&mut self, op: usize, re: usize, kind: &'static str, ty: &'static str, f: Value, by: usize, maker: usize) {
        let m = self.put(op, true, kind, ty, f, Some(re), by, maker);
        self.transmit(op, m, 0);
    }
    fn at_client(&mut self, op: usize, m: usize, text: String) {
        let by = self.msgs[m].by;
        let Some((told, got)) = self.hears(m, &text, by) else { return };
        let id = id_key(&told["id"]);
        let Some(rm) = self.p[op].pending.remove(&id) else {
            self.w.bump("late_duplicate_reply_ignored");
            return;
        };
        if Some(rm) != self.msgs[m].re {
            self.bad(by, "misdelivered", format!("the reply to {} was matched to another request", told["id"]));
            return;
        }
        let c = self.p[op].c.clone();
        if st(&told, "kind") == "error" {
            if by >= 4 && got["error"]["code"] == -32022 {
                let rep = self.ctx.vers[by].lib.call(&json!({"op": "typederr", "which": "unsupported_protocol_version", "text": text}));
                let x: Value = serde_json::from_str(st(&rep["ok"], "enc")).unwrap_or(Value::Null);
                if let Some((p, w)) = diff(&self.msgs[m].frame.clone(), &x) {
                    self.bad(by, &format!("unsupported|{}", generic_path(&p)), format!("the refusal {text} reads as {rep}: {p} {w}"));
                    return;
                }
            }
            match got["error"]["data"].get("supported") {
                // the server named its versions: only those are worth offering
                Some(s) => {
                    let s = names(s);
                    self.narrow(op, &s);
                }
                None if by >= 4 => self.p[op].left.retain(|x| idx(x).is_some_and(|i| i < 4)),
                None => {}
            }
            self.offer(op);
            return;
        }
        if by >= 4 {
            let s = names(&got["result"]["supportedVersions"]);
            let both: Vec<String> = c.into_iter().filter(|x| s.contains(x)).collect();
            let best = self.sorted(&both).into_iter().next();
            match best {
                Some(b) if idx(&b).is_some_and(|i| i >= 4) => self.rest(op, Some(b)),
                Some(_) => {
                    self.narrow(op, &s);
                    self.offer(op);
                }
                None => self.rest(op, None),
            }
            return;
        }
        let said = st(&got["result"], "protocolVersion").to_string();
        match self.parse(&said) {
            Some(a) if c.contains(&a) => {
                if let Some(i) = idx(&a) {
                    let f = frame_notification(self.ctx.vers[i].method_of("InitializedNotification"), None);
                    let n = self.put(op, false, "notification", "InitializedNotification", f, None, i, i);
                    self.transmit(op, n, 0);
                }
                self.rest(op, Some(a));
            }
            _ => self.offer(op),
        }
    }
    fn narrow(&mut self, op: usize, s: &[String]) {
        self.p[op].left.retain(|x| s.contains(x));
    }
    /// The client has its answer: it must be the newest version both support, or none if there is none.
    fn rest(&mut self, op: usize, got: Option<String>) {
        let p = &self.p[op];
        let want = WIRE.iter().rev().find(|x| p.c.iter().any(|y| y == *x) && p.s.iter().any(|y| y == *x)).map(|x| x.to_string());
        self.w.bump(if got.is_some() { "agreements" } else { "no_common_version" });
        self.w.note(&format!("rest {op} {got:?}"), "");
        let p = &self.p[op];
        if got != want {
            let x = format!("client {:?} and server {:?} settled on {got:?}; the newest version both support is {want:?}", p.c, p.s);
            let by = got.as_deref().and_then(idx).unwrap_or(0);
            self.bad(by, "agreement", x);
        }
        self.p[op].agreed.push(got);
        self.p[op].resting = true;
    }
}
