//! Capabilities: peers declare what they support when they connect, over relays and faulty links; every request and
//! notification is then let through or refused by the library on the declaration as it arrived; reconnecting changes it.
use crate::cat::*;
use crate::check::*;
use crate::jsonx::*;
use crate::net::*;
use crate::rng::*;
use crate::session::scramble;
use crate::world::*;
use crate::{Ctx, Outcome};
use serde_json::{json, Value};

pub enum Ev {
    Connect,
    /// leg 0: the client's declaration, leg 1: the server's, leg 2: an operation
    Arrive { node: usize, conn: usize, leg: u8, op: usize, text: String },
    Retry { conn: usize, round: u64 },
    Op { op: usize, tries: u64 },
    Down(usize, u64),
    Up(usize),
}

pub fn plan(ctx: &Ctx, seed: u64, prop: &str) -> Value {
    let mut rr = Rng::new(hash_str(seed, prop));
    let r = &mut rr;
    let v = &ctx.vers[*r.pick(&[3usize, 3, 3, 4, 5])];
    let n = 2 + r.below(3);
    let mut g = gen_for(v, r);
    let mut used: [Vec<Value>; 2] = [vec![], vec![]];
    let k = 1 + r.below(3);
    let mut conns = vec![];
    for _ in 0..k {
        g = gen_for(v, r);
        g.opt = *r.pick(&[0.15, 0.4, 0.6, 0.8, 1.0]);
        g.depth = 5;
        conns.push(json!([g.named(r, "ClientCapabilities"), g.named(r, "ServerCapabilities"), g.opt]));
    }
    let mut ops = vec![];
    for u in 0..r.range(3, 20) {
        if r.p(0.3) {
            g = gen_for(v, r);
        }
        let side = r.below(2);
        let s = ["c", "s"][side];
        let (kind, ty, frame) = if r.p(0.35) {
            let custom = r.p(0.15);
            if custom {
                ("notification", "custom", frame_notification(&vendor_method(r, v, "notification"), crate::gen::custom_params(&g, r)))
            } else {
                let ty = *r.pick(v.nots(s));
                ("notification", ty, v.notification(&g, r, ty))
            }
        } else if r.p(0.1) {
            let id = fresh_id(r, &mut used[side]);
            ("request", "custom", frame_request(&id, &vendor_method(r, v, "request"), crate::gen::custom_params(&g, r)))
        } else {
            let id = fresh_id(r, &mut used[side]);
            let mut pool = v.reqs(s).to_vec();
            pool.retain(|t| *t != "InitializeRequest" && *t != "DiscoverRequest");
            let ty = *r.pick(&pool);
            ("request", ty, v.request(&g, r, ty, &id))
        };
        ops.push(json!({"u": u, "t": r.below(3500), "from": s, "kind": kind, "ty": ty, "frame": frame, "style": r.below(4)}));
    }
    let mut events = vec![];
    for i in 1..k {
        events.push(json!({"e": "reconnect", "t": 300 + 1000 * i + r.below(700)}));
    }
    if n > 2 && r.p(0.3) {
        events.push(json!({"e": "crash", "n": 1 + r.below(n - 2), "t": r.below(2500), "down": 1 + r.below(400)}));
    }
    g = gen_for(v, r);
    let hello = if v.fam == Fam::C {
        json!([v.request(&g, r, "DiscoverRequest", &json!("hello")), v.result(&g, r, "DiscoverResult")])
    } else {
        json!([v.request(&g, r, "InitializeRequest", &json!("hello")), v.result(&g, r, "InitializeResult")])
    };
    json!({"scn": "cap", "prop": prop, "seed": seed, "vers": [v.idx], "n": n, "net_seed": r.next() >> 8, "prof": Profile::draw(r, 0.0), "rto": *r.pick(&[200u64, 500]), "heal": 4000,
           "conns": conns, "hello": hello, "ops": ops, "events": events, "faults": null})
}

fn has(c: &Value, path: &str) -> bool {
    !at(c, path).is_null()
}

/// What is missing for this message, as words one of which the refusal must contain. Empty: it must be let through.
/// `from` is the side that sends it; `c` are the capabilities that decide.
pub fn missing(ver: &Ver, from: &str, kind: &str, ty: &str, frame: &Value, c: &Value) -> Vec<&'static str> {
    let mut m: Vec<&'static str> = vec![];
    let p = &frame["params"];
    let mut need = |ok: bool, w: &[&'static str]| {
        if !ok {
            m.extend(w);
        }
    };
    let coarse = ver.fam == Fam::C;
    if kind == "notification" {
        match (from, ty) {
            ("s", "LoggingMessageNotification") => need(has(c, "logging"), &["logging"]),
            ("s", "ResourceUpdatedNotification" | "ResourceListChangedNotification") => need(has(c, "resources"), &["resource"]),
            ("s", "ToolListChangedNotification") => need(has(c, "tools"), &["tool"]),
            ("s", "PromptListChangedNotification") => need(has(c, "prompts"), &["prompt"]),
            ("c", "RootsListChangedNotification") => need(has(c, "roots"), &["roots"]),
            _ => {}
        }
        return m;
    }
    let aug = p.get("task").is_some_and(|t| !t.is_null());
    match (from, ty) {
        ("c", "SetLevelRequest") => need(has(c, "logging"), &["logging"]),
        ("c", "GetPromptRequest" | "ListPromptsRequest") => need(has(c, "prompts"), &["prompt"]),
        ("c", "ListResourcesRequest" | "ListResourceTemplatesRequest" | "ReadResourceRequest" | "UnsubscribeRequest") => need(has(c, "resources"), &["resource"]),
        ("c", "SubscribeRequest") => {
            need(has(c, "resources") && at(c, "resources/subscribe") == &json!(true), &["resource", "subscri"]);
        }
        ("c", "ListToolsRequest") => need(has(c, "tools"), &["tool"]),
        ("c", "CallToolRequest") => {
            need(has(c, "tools"), &["tool"]);
            need(coarse || !aug || has(c, "tasks/requests/tools/call"), &["task"]);
        }
        ("c", "CompleteRequest") => need(has(c, "completions"), &["completion"]),
        ("c" | "s", "GetTaskRequest" | "GetTaskPayloadRequest") => need(has(c, "tasks"), &["task"]),
        ("c" | "s", "ListTasksRequest") => need(has(c, "tasks/list"), &["task"]),
        ("c" | "s", "CancelTaskRequest") => need(has(c, "tasks/cancel"), &["task"]),
        ("s", "ListRootsRequest") => need(has(c, "roots"), &["roots"]),
        ("s", "CreateMessageRequest") => {
            need(has(c, "sampling"), &["sampling"]);
            if !coarse {
                let ctx = p.get("includeContext").is_some_and(|x| x != "none" && !x.is_null());
                need(!ctx || has(c, "sampling/context"), &["context"]);
                let tools = p.get("toolChoice").is_some_and(|x| !x.is_null()) || p["tools"].as_array().is_some_and(|a| !a.is_empty());
                need(!tools || has(c, "sampling/tools"), &["tool"]);
                need(!aug || has(c, "tasks/requests/sampling/createMessage"), &["task"]);
            }
        }
        ("s", "ElicitRequest") => {
            need(has(c, "elicitation"), &["elicit"]);
            if !coarse {
                let url = p["mode"] == "url";
                need(if url { has(c, "elicitation/url") } else { has(c, "elicitation/form") || !has(c, "elicitation/url") }, &["elicit"]);
                need(!aug || has(c, "tasks/requests/elicitation/create"), &["task"]);
            }
        }
        _ => {}
    }
    m
}

struct C<'a> {
    ver: &'a Ver,
    plan: &'a Value,
    w: World<Ev>,
    n: usize,
    ops: Vec<Value>,
    up: Vec<bool>,
    conn: usize,
    conns: Vec<Value>,
    /// what each endpoint knows of both sides' declarations on this connection: [endpoint][side]
    known: [[Value; 2]; 2],
    decided: Vec<bool>,
    sent: Vec<bool>,
    heard: Vec<u64>,
}

pub fn run(ctx: &Ctx, plan: &Value, trace: bool) -> Outcome {
    let ops = plan["ops"].as_array().unwrap().clone();
    let n = un(plan, "n") as usize;
    let mut c = C {
        ver: &ctx.vers[plan["vers"][0].as_u64().unwrap() as usize],
        plan,
        w: World::new(plan, trace),
        n,
        up: vec![true; n],
        conn: usize::MAX,
        conns: plan["conns"].as_array().unwrap().clone(),
        known: Default::default(),
        decided: vec![false; ops.len()],
        sent: vec![false; ops.len()],
        heard: vec![0; ops.len()],
        ops,
    };
    c.w.at(0, Ev::Connect);
    for (i, o) in c.ops.iter().enumerate() {
        c.w.at(un(o, "t"), Ev::Op { op: i, tries: 0 });
    }
    for e in plan["events"].as_array().unwrap() {
        match st(e, "e") {
            "reconnect" => c.w.at(un(e, "t"), Ev::Connect),
            _ => c.w.at(un(e, "t"), Ev::Down(un(e, "n") as usize, un(e, "down"))),
        }
    }
    c.go();
    for i in 0..c.ops.len() {
        if !c.decided[i] && c.w.viols.is_empty() {
            let t = format!("{} was never decided although faults stopped", c.ops[i]["frame"]);
            c.bad("live", t);
        }
    }
    Outcome::of(c.w)
}

impl C<'_> {
    fn bad(&mut self, what: &str, text: String) {
        let x = v("cap", self.ver, what, text);
        self.w.viols.push(x);
    }
    fn caps(&self, side: usize) -> Value {
        self.conns[self.conn.min(self.conns.len() - 1)][side].clone()
    }
    fn path(&self, leg: u8) -> &'static str {
        match (self.ver.fam, leg) {
            (Fam::C, 0) => "params/_meta/io.modelcontextprotocol~clientCapabilities",
            (_, 0) => "params/capabilities",
            _ => "result/capabilities",
        }
    }
    fn at<'b>(f: &'b Value, path: &str) -> &'b Value {
        let mut x = f;
        for k in path.split('/') {
            x = &x[k.replace('~', "/").as_str()];
        }
        x
    }
    fn hello(&self, leg: u8) -> Value {
        let mut f = self.plan["hello"][leg as usize].clone();
        let caps = self.caps(leg as usize);
        if leg == 0 {
            if self.ver.fam == Fam::C {
                f["params"]["_meta"]["io.modelcontextprotocol/clientCapabilities"] = caps;
            } else {
                f["params"]["capabilities"] = caps;
            }
            return f;
        }
        f["capabilities"] = caps;
        frame_response(&json!("hello"), f)
    }
    fn exp_of(&self, leg: u8, op: usize) -> (&'static str, &'static str, String, Value) {
        match leg {
            0 => ("c", "request", if self.ver.fam == Fam::C { "DiscoverRequest" } else { "InitializeRequest" }.into(), self.hello(0)),
            1 => ("s", "response", if self.ver.fam == Fam::C { "DiscoverResult" } else { "InitializeResult" }.into(), self.hello(1)),
            _ => {
                let o = &self.ops[op];
                let k = if st(o, "kind") == "request" { "request" } else { "notification" };
                (if st(o, "from") == "c" { "c" } else { "s" }, k, st(o, "ty").into(), o["frame"].clone())
            }
        }
    }
    fn pass(&mut self, at: usize, leg: u8, op: usize, text: &str) {
        let (side, ..) = self.exp_of(leg, op);
        let to = if side == "c" { at + 1 } else { at - 1 };
        let key = self.w.nth(&format!("p{}:{leg}:{op}:{to}", self.conn));
        let conn = self.conn;
        post(&mut self.w, &key, text, |t, _| Ev::Arrive { node: to, conn, leg, op, text: t });
    }
    fn greet(&mut self, round: u64) {
        let f = self.hello(0);
        let mut r = self.w.choice(&format!("hello{}:{round}", self.conn));
        let style = r.below(4);
        let text = scramble(&f, &mut r, style);
        self.pass(0, 0, 0, &text);
        let conn = self.conn;
        self.w.after(un(self.plan, "rto").max(1), Ev::Retry { conn, round: round + 1 });
    }
    fn go(&mut self) {
        while let Some(e) = self.w.pop() {
            if self.w.steps > 8000 {
                return;
            }
            match e {
                Ev::Connect => {
                    self.conn = if self.conn == usize::MAX { 0 } else { self.conn + 1 };
                    self.known = Default::default();
                    // each end knows its own declaration
                    self.known[0][0] = self.caps(0);
                    self.known[1][1] = self.caps(1);
                    if self.conn > 0 {
                        self.w.bump("reconnect");
                    }
                    self.w.note(&format!("connect {}", self.conn), "");
                    self.helpers();
                    self.greet(0);
                }
                Ev::Retry { conn, round } => {
                    if conn == self.conn && self.known[0][1].is_null() && round < 60 {
                        self.w.bump("retransmission");
                        self.greet(round);
                    }
                }
                Ev::Arrive { node, conn, leg, op, text } => {
                    if conn != self.conn || !self.up[node] {
                        self.w.bump("late_or_lost_packet");
                        continue;
                    }
                    self.arrive(node, leg, op, text);
                }
                Ev::Op { op, tries } => self.op(op, tries),
                Ev::Down(k, down) => {
                    if self.up[k] {
                        self.w.bump("crash");
                        self.up[k] = false;
                        self.w.after(down, Ev::Up(k));
                    }
                }
                Ev::Up(k) => {
                    self.w.bump("restart");
                    self.up[k] = true;
                }
            }
        }
    }
    fn arrive(&mut self, node: usize, leg: u8, op: usize, text: String) {
        let (side, kind, ty, frame) = self.exp_of(leg, op);
        let key = self.w.nth(&format!("{}:{leg}:{op}:{node}", self.conn));
        let e = Exp { side, kind, ty: &ty, frame: &frame };
        let Some((_, enc)) = hear(&mut self.w, self.ver, &e, &text, &key) else { return };
        if node != 0 && node != self.n - 1 {
            self.pass(node, leg, op, &enc);
            return;
        }
        if leg < 2 {
            let end = if node == 0 { 0 } else { 1 };
            let got: Value = serde_json::from_str(&enc).unwrap_or(Value::Null);
            let decl = Self::at(&got, self.path(leg)).clone();
            let want = self.caps(leg as usize);
            if let Some((p, x)) = diff(&want, &decl) {
                self.bad(&format!("declaration|{}", generic_path(&p)), format!("the declared capabilities {want} arrive as {decl}: {p} {x}"));
            }
            self.known[end][leg as usize] = decl;
            if leg == 0 {
                // the server answers with its own
                let f = self.hello(1);
                let mut r = self.w.choice(&format!("answer{key}"));
                let style = r.below(4);
                let text = scramble(&f, &mut r, style);
                self.pass(node, 1, 0, &text);
            } else {
                self.w.bump("connections_established");
            }
            return;
        }
        self.heard[op] += 1;
        self.w.bump(if self.heard[op] == 1 { "operations_delivered" } else { "duplicate_suppressed" });
        // the receiver judges by the same declaration
        self.gate(op, if node == 0 { 0 } else { 1 });
    }
    /// Whether the library lets the operation through, by what this endpoint knows.
    fn gate(&mut self, op: usize, end: usize) -> Option<bool> {
        let (from, kind, ty, frame) = self.exp_of(2, op);
        let sender = if from == "c" { 0 } else { 1 };
        // requests need what the other side declared, notifications what their own sender declared
        let side = if kind == "request" { 1 - sender } else { sender };
        let caps = self.known[end][side].clone();
        if caps.is_null() {
            return None;
        }
        let who = ["client", "server"][side];
        let text = self.ops[op]["text"].as_str().map(str::to_string).unwrap_or_else(|| frame.to_string());
        let q = if kind == "request" {
            json!({"op": "cap", "who": who, "caps": caps, "text": text})
        } else {
            json!({"op": "cap", "who": who, "caps": caps, "method": frame["method"]})
        };
        let rep = self.ver.lib.call(&q);
        let miss = missing(self.ver, from, kind, &ty, &frame, &caps);
        let ctx = format!("{kind} {ty} to a peer where the {who} declared {}: {}", short(&caps.to_string(), 500), short(&frame.to_string(), 500));
        self.w.note(&format!("gate {end} {op}"), &rep.to_string());
        self.w.bump("gates_decided");
        if rep.get("panic").is_some() {
            let x = v("panic", self.ver, "gate", format!("panic: {rep}; {ctx}"));
            self.w.viols.push(x);
            return Some(false);
        }
        let Some(d) = rep.get("ok") else {
            self.bad("refused", format!("the gate cannot be asked: {rep}; {ctx}"));
            return Some(false);
        };
        let allow = d["allow"] == true;
        if allow && !miss.is_empty() {
            self.bad(&format!("{ty}|let through without {}", miss[0]), format!("let through although {miss:?} is not declared; {ctx}"));
        }
        if !allow && miss.is_empty() {
            self.bad(&format!("{ty}|refused"), format!("refused ({}) although it is covered; {ctx}", d["message"]));
        }
        if !allow && !miss.is_empty() {
            self.w.bump("refused_by_capability");
            let m = st(d, "message").to_lowercase();
            if !m.contains(&st(&frame, "method").to_lowercase()) || d["code"].as_i64().is_none_or(|c| c >= 0) {
                self.bad(&format!("{ty}|error"), format!("the refusal is {d}: it does not name the operation; {ctx}"));
            } else if !miss.iter().any(|k| m.contains(k)) {
                self.bad(&format!("{ty}|reason"), format!("the refusal is {d}: it names none of {miss:?}; {ctx}"));
            }
        }
        Some(allow)
    }
    fn op(&mut self, op: usize, tries: u64) {
        let (from, kind, ..) = self.exp_of(2, op);
        let end = if from == "c" { 0 } else { 1 };
        let _ = kind;
        if self.ops[op].get("text").is_none() {
            let mut r = self.w.choice(&format!("text:{}", un(&self.ops[op], "u")));
            let t = scramble(&self.ops[op]["frame"], &mut r, un(&self.ops[op], "style") as usize);
            self.ops[op]["text"] = json!(t);
        }
        match self.gate(op, end) {
            None => {
                // not connected yet
                if tries < 400 {
                    self.w.after(50, Ev::Op { op, tries: tries + 1 });
                }
            }
            Some(ok) => {
                self.decided[op] = true;
                if ok {
                    self.sent[op] = true;
                    let at = if end == 0 { 0 } else { self.n - 1 };
                    let t = st(&self.ops[op], "text").to_string();
                    self.pass(at, 2, op, &t);
                }
            }
        }
    }
    /// The helpers that answer for one sub-capability.
    fn helpers(&mut self) {
        if self.ver.fam != Fam::B {
            return;
        }
        for side in 0..2 {
            let caps = self.caps(side);
            let who = ["client", "server"][side];
            let rep = self.ver.lib.call(&json!({"op": "cap", "who": who, "caps": caps}));
            let mut want = vec![("list", has(&caps, "tasks/list")), ("cancel", has(&caps, "tasks/cancel"))];
            if side == 1 {
                want.push(("tools", has(&caps, "tasks/requests/tools/call")));
            } else {
                want.push(("elicit", has(&caps, "tasks/requests/elicitation/create")));
                want.push(("sampling", has(&caps, "tasks/requests/sampling/createMessage")));
            }
            let any = has(&caps, "tasks");
            for (k, x) in want {
                let t = &rep["ok"][format!("t_{k}").as_str()];
                if rep["ok"][k] != json!(x) || (any && t != &json!(x)) || (!any && !t.is_null()) {
                    self.bad(&format!("helper|{who}|{k}"), format!("the {who}'s {k} sub-capability is reported as {} (task capability: {t}), declared: {}", rep["ok"][k], caps["tasks"]));
                }
            }
        }
    }
}
