//! Standing interests: subscriptions, calls that report progress, visits that complete later. Several clients hold many of
//! them open with one server; the server's notifications about them are lost, duplicated, delayed, reordered; clients cancel,
//! unsubscribe, crash; the server ends streams, crashes and restarts with or without its store.
use crate::cat::*;
use crate::check::*;
use crate::jsonx::*;
use crate::net::*;
use crate::rng::*;
use crate::session::scramble;
use crate::world::*;
use crate::{Ctx, Outcome};
use serde_json::{json, Map, Value};

pub enum Ev {
    Open(usize),
    ToServer { m: usize, text: String },
    ToClient { m: usize, text: String },
    Again { m: usize, n: u64 },
    /// something happens at the server
    Happen(usize),
    Final,
    Tick { i: usize, gen: u64, k: u64 },
    Close(usize),
    Down(usize, u64),
    Up(usize),
}

pub const SUB: &str = "io.modelcontextprotocol/subscriptionId";
const URIS: &[&str] = &["file:///a", "file:///a/", "file:///A", "file:///a b", "x:1", "x:01", "x:", "urn:é", "file:///a%20b", "http://h/?q=1#f", "file:///a/b", "{}", "1"];

pub fn plan(ctx: &Ctx, seed: u64, prop: &str) -> Value {
    let mut rr = Rng::new(hash_str(seed, prop));
    let r = &mut rr;
    let ver = *r.pick(&[0usize, 1, 2, 3, 3, 4, 4, 4, 5]);
    let v = &ctx.vers[ver];
    let mut g = gen_for(v, r);
    g.depth = g.depth.min(3);
    let clients = 1 + r.below(3);
    let mut used: Vec<Vec<Value>> = vec![vec![]; clients];
    let mut tokens: Vec<Vec<Value>> = vec![vec![]; clients];
    let mut mine: Vec<Vec<String>> = vec![vec![]; clients];
    let mut eids: Vec<Value> = vec![];
    let uris = |r: &mut Rng, n: usize| -> Vec<String> {
        let mut u: Vec<String> = (0..n).map(|_| if r.p(0.9) { r.pick(URIS).to_string() } else { g.string(r) }).collect();
        u.sort();
        u.dedup();
        r.shuffle(&mut u);
        u
    };
    let mut ops = vec![];
    for u in 0..r.scale(1, 6, 0.004, 60) {
        let c = r.below(clients);
        let kind = match v.fam {
            Fam::C => *r.pick(&["listen", "listen", "call"]),
            Fam::B => *r.pick(&["uri", "uri", "call", "call", "url"]),
            Fam::A => *r.pick(&["uri", "uri", "call"]),
        };
        let id = fresh_id(r, &mut used[c]);
        let mut o = json!({"u": u, "t": r.below(1200), "client": c, "kind": "request", "what": kind, "from": "c", "style": r.below(4), "route": r.below(2), "typed": r.p(0.7)});
        let ty = match kind {
            "listen" => {
                let mut f = v.request(&g, r, "SubscriptionsListenRequest", &id);
                let mut n = Map::new();
                for k in ["toolsListChanged", "promptsListChanged", "resourcesListChanged"] {
                    if r.p(0.6) {
                        n.insert(k.into(), json!(r.p(0.75)));
                    }
                }
                if r.p(0.7) {
                    let k = r.scale(1, 4, 0.01, 40) as usize;
                    n.insert("resourceSubscriptions".into(), json!(uris(r, k)));
                }
                f["params"]["notifications"] = json!(n);
                o["frame"] = f;
                "SubscriptionsListenRequest"
            }
            "uri" => {
                let mut f = v.request(&g, r, "SubscribeRequest", &id);
                // one subscription of each client to each resource
                let x = uris(r, 1).remove(0);
                if mine[c].contains(&x) {
                    continue;
                }
                mine[c].push(x.clone());
                f["params"]["uri"] = json!(x);
                o["frame"] = f;
                "SubscribeRequest"
            }
            "url" => {
                let mut f = v.request(&g, r, "ElicitRequest", &id);
                let e = fresh_id(r, &mut eids);
                let e = if let Value::String(s) = e { s } else { e.to_string() };
                if eids.iter().filter(|x| **x == json!(e) || x.to_string() == e).count() > 1 {
                    continue;
                }
                f["params"] = json!({"mode": "url", "elicitationId": e, "message": g.string(r), "url": "https://example.com/x"});
                o["from"] = json!("s");
                o["frame"] = f;
                "ElicitRequest"
            }
            _ => {
                let ty = match v.fam {
                    Fam::A => "PingRequest",
                    Fam::B => *r.pick(&["CallToolRequest", "GetPromptRequest", "ReadResourceRequest", "CompleteRequest", "ListToolsRequest"]),
                    Fam::C => *r.pick(&["CallToolRequest", "GetPromptRequest", "ReadResourceRequest", "CompleteRequest", "ListToolsRequest"]),
                };
                let mut f = v.request(&g, r, ty, &id);
                let tok = fresh_id(r, &mut tokens[c]);
                if !f["params"].is_object() {
                    f["params"] = json!({});
                }
                if !f["params"]["_meta"].is_object() {
                    f["params"]["_meta"] = json!({});
                }
                f["params"]["_meta"]["progressToken"] = tok.clone();
                if let Some(p) = f["params"].as_object_mut() {
                    p.remove("task");
                }
                o["frame"] = f;
                let mut x = r.range(-3, 40) as f64 / 4.0;
                let steps: Vec<Value> = (0..r.scale(1, 5, 0.01, 60))
                    .map(|_| {
                        x += *r.pick(&[1.0, 0.5, 0.25, 4096.0, 1e9]);
                        json!({"dt": 1 + r.below(300), "progress": x, "total": if r.p(0.5) { json!(x + r.range(0, 400) as f64 / 4.0) } else { Value::Null }})
                    })
                    .collect();
                o["steps"] = json!(steps);
                let res = v.result_of(ty);
                o["final"] = json!({"kind": "response", "ty": res, "frame": frame_response(&id, v.result(&g, r, res))});
                ty
            }
        };
        o["ty"] = json!(ty);
        if r.p(0.45) {
            o["close"] = json!({"t": r.below(3500), "by": if kind == "listen" && r.p(0.5) { "s" } else { "c" }});
        }
        ops.push(o);
    }
    let mut steps = vec![];
    for u in 0..r.scale(2, 14, 0.004, 80) {
        let what = *r.pick(&["tools", "prompts", "resources", "updated", "updated", "updated"]);
        let x = uris(r, 1).remove(0);
        let known: Vec<String> = ops.iter().flat_map(|o| o["frame"]["params"]["notifications"]["resourceSubscriptions"].as_array().cloned().unwrap_or_default().into_iter().chain([o["frame"]["params"]["uri"].clone()])).filter_map(|x| x.as_str().map(str::to_string)).collect();
        let x = if !known.is_empty() && r.p(0.7) { r.pick(&known).clone() } else { x };
        steps.push(json!({"u": u, "t": r.below(4400), "what": what, "uri": x, "typed": r.p(0.7), "extra": if r.p(0.3) { g.map(r, 1) } else { Value::Null }}));
    }
    let mut events = vec![];
    for _ in 0..r.below(3) {
        events.push(json!({"e": "crash", "n": r.below(clients + 1), "t": r.below(3500), "down": 1 + r.below(500)}));
    }
    let supports = json!({"tools": r.p(0.85), "prompts": r.p(0.85), "resources": r.p(0.85)});
    json!({"scn": "interest", "prop": prop, "seed": seed, "vers": [ver], "clients": clients, "durable": r.p(0.5), "supports": supports, "net_seed": r.next() >> 8,
           "prof": Profile::draw(r, 0.0), "rto": *r.pick(&[200u64, 500]), "heal": 4500, "ops": ops, "steps": steps, "events": events, "faults": null})
}

/// What a message is, as the simulator knows it.
struct Msg {
    /// the interest it belongs to, and which opening of it
    i: usize,
    gen: u64,
    what: &'static str,
    kind: &'static str,
    ty: String,
    frame: Value,
    text: String,
    name: String,
    to_server: bool,
    client: usize,
    settled: bool,
    last: bool,
}
/// One interest, in truth.
#[derive(Clone)]
struct Int {
    client: usize,
    what: String,
    gen: u64,
    /// the id of its current opening
    id: Value,
    /// open at the client; known to the server
    open: bool,
    known: bool,
    over: bool,
    /// the frame as the client sent it this time
    frame: Value,
    /// final notifications seen at the client
    last: u64,
    answered: bool,
}
/// What the server keeps of an interest: only what the library told it.
struct Kept {
    client: usize,
    gen: u64,
    i: usize,
    id: Value,
    told: Value,
    /// the library's encoding of the request, as stored
    stored: String,
}

struct T<'a> {
    ver: &'a Ver,
    plan: &'a Value,
    w: World<Ev>,
    ops: Vec<Value>,
    ints: Vec<Int>,
    kept: Vec<Kept>,
    /// calls the server is working on: interest, opening
    up: Vec<bool>,
    msgs: Vec<Msg>,
    ids: u64,
}

pub fn run(ctx: &Ctx, plan: &Value, trace: bool) -> Outcome {
    let mut ops = plan["ops"].as_array().unwrap().clone();
    for o in &mut ops {
        o["token"] = o["frame"]["params"]["_meta"]["progressToken"].clone();
        o["eid"] = o["frame"]["params"]["elicitationId"].clone();
    }
    let clients = un(plan, "clients").max(1) as usize;
    let ints = ops
        .iter()
        .map(|o| Int { client: (un(o, "client") as usize).min(clients - 1), what: st(o, "what").into(), gen: 0, id: o["frame"]["id"].clone(), open: false, known: false, over: false, frame: o["frame"].clone(), last: 0, answered: false })
        .collect();
    let mut t = T { ver: &ctx.vers[plan["vers"][0].as_u64().unwrap() as usize], plan, w: World::new(plan, trace), ops, ints, kept: vec![], up: vec![true; clients + 1], msgs: vec![], ids: 0 };
    for i in 0..t.ops.len() {
        let at = un(&t.ops[i], "t");
        t.w.at(at, Ev::Open(i));
        if let Some(c) = t.ops[i]["close"]["t"].as_u64() {
            t.w.at(c, Ev::Close(i));
        }
    }
    for (k, s) in plan["steps"].as_array().into_iter().flatten().enumerate() {
        t.w.at(un(s, "t"), Ev::Happen(k));
    }
    for e in plan["events"].as_array().into_iter().flatten() {
        t.w.at(un(e, "t"), Ev::Down((un(e, "n") as usize).min(clients), un(e, "down")));
    }
    // long after faults stopped, everything happens once more
    t.w.at(un(plan, "heal") + 12_000, Ev::Final);
    t.go();
    for i in 0..t.ints.len() {
        let x = t.ints[i].clone();
        if !t.w.viols.is_empty() {
            break;
        }
        if x.open && !x.answered {
            t.bad(&format!("never opened|{}", x.what), format!("{} {} got no answer after faults stopped", st(&t.ops[i], "ty"), x.id));
        } else if x.open && matches!(x.what.as_str(), "listen" | "uri") && x.last != t.covers_final(i) {
            t.bad(&format!("not told|{}", x.what), format!("{} {} should have been told of {} final changes and was told of {}", st(&t.ops[i], "ty"), x.frame, t.covers_final(i), x.last));
        }
    }
    for o in &t.ops {
        t.w.shapes.insert(shape(&o["frame"], hash_str(5, st(o, "what"))));
    }
    Outcome::of(t.w)
}

impl T<'_> {
    fn bad(&mut self, what: &str, text: String) {
        let x = v("interest", self.ver, what, text);
        self.w.viols.push(x);
    }
    fn call(&mut self, q: Value) -> Value {
        self.w.bump("typed_lookups");
        self.ver.lib.call(&q)
    }
    fn server(&self) -> usize {
        self.up.len() - 1
    }
    fn u(&self, i: usize) -> u64 {
        un(&self.ops[i], "u")
    }
    fn supported(&self, filter: &Value) -> Value {
        let s = &self.plan["supports"];
        let mut m = Map::new();
        for (k, cap) in [("toolsListChanged", "tools"), ("promptsListChanged", "prompts"), ("resourcesListChanged", "resources")] {
            if filter[k] == json!(true) && s[cap] == json!(true) {
                m.insert(k.into(), json!(true));
            }
        }
        if s["resources"] == json!(true) && filter["resourceSubscriptions"].as_array().is_some_and(|a| !a.is_empty()) {
            m.insert("resourceSubscriptions".into(), filter["resourceSubscriptions"].clone());
        }
        Value::Object(m)
    }
    /// Does the interest cover the happening, by the frame that was sent?
    fn covers(&self, i: usize, what: &str, uri: &str) -> bool {
        let f = &self.ints[i].frame["params"];
        match self.ints[i].what.as_str() {
            "uri" => what == "updated" && f["uri"] == uri,
            "listen" => {
                let n = self.supported(&f["notifications"]);
                match what {
                    "updated" => n["resourceSubscriptions"].as_array().is_some_and(|a| a.iter().any(|x| x == uri)),
                    w => n[format!("{w}ListChanged")] == json!(true),
                }
            }
            _ => false,
        }
    }
    fn final_list(&self) -> Vec<(String, String)> {
        let mut l: Vec<(String, String)> = vec![("tools".into(), "".into()), ("prompts".into(), "".into()), ("resources".into(), "".into())];
        let mut us: Vec<String> = vec![];
        for o in &self.ops {
            let p = &o["frame"]["params"];
            us.extend(p["notifications"]["resourceSubscriptions"].as_array().into_iter().flatten().chain([&p["uri"]]).filter_map(|x| x.as_str().map(str::to_string)));
        }
        us.sort();
        us.dedup();
        l.extend(us.into_iter().map(|u| ("updated".into(), u)));
        l
    }
    fn covers_final(&self, i: usize) -> u64 {
        self.final_list().iter().filter(|(w, u)| self.covers(i, w, u)).count() as u64
    }
    fn go(&mut self) {
        while let Some(e) = self.w.pop() {
            if self.w.steps > 20_000 || self.w.viols.len() > 40 {
                return;
            }
            match e {
                Ev::Open(i) => self.open(i),
                Ev::ToServer { m, text } => {
                    if !self.up[self.server()] || !self.up[self.msgs[m].client] {
                        self.w.bump("lost_to_crashed_node");
                    } else {
                        self.at_server(m, text);
                    }
                }
                Ev::ToClient { m, text } => {
                    if !self.up[self.msgs[m].client] {
                        self.w.bump("lost_to_crashed_node");
                    } else {
                        self.at_client(m, text);
                    }
                }
                Ev::Again { m, n } => {
                    let x = &self.msgs[m];
                    let node = if x.to_server { x.client } else { self.server() };
                    let due = !x.settled && self.ints[x.i].gen == x.gen && self.w.now < self.w.heal + 11_000;
                    if due && !self.up[node] && !x.to_server && self.plan["durable"] == json!(true) {
                        self.w.after(200, Ev::Again { m, n });
                    } else if due && self.up[node] {
                        self.w.bump("retransmission");
                        self.transmit(m, n + 1);
                    }
                }
                Ev::Happen(k) => {
                    let s = self.plan["steps"][k].clone();
                    let key = format!("s{}", un(&s, "u"));
                    self.happen(st(&s, "what"), st(&s, "uri"), &s, &key, false);
                }
                Ev::Final => {
                    for (k, (w, u)) in self.final_list().into_iter().enumerate() {
                        let s = json!({"typed": k % 2 == 0});
                        self.happen(&w, &u, &s, &format!("f{k}"), true);
                    }
                }
                Ev::Tick { i, gen, k } => self.tick(i, gen, k),
                Ev::Close(i) => self.close(i),
                Ev::Down(n, down) => {
                    if self.up[n] {
                        self.w.bump("crash");
                        self.w.note(&format!("crash {n}"), "");
                        self.up[n] = false;
                        if n == self.server() {
                            if self.plan["durable"] != json!(true) {
                                self.kept.clear();
                                for x in &mut self.ints {
                                    x.known = false;
                                }
                            }
                        } else {
                            // its connection is gone, and with it what the server kept for it
                            self.kept.retain(|k| k.client != n);
                            for x in &mut self.ints {
                                if x.client == n {
                                    x.known = false;
                                }
                            }
                        }
                        self.w.after(down, Ev::Up(n));
                    }
                }
                Ev::Up(n) => {
                    self.w.bump("restart");
                    self.up[n] = true;
                    let server = n == self.server();
                    if server && self.plan["durable"] == json!(true) {
                        self.restore();
                    }
                    for i in 0..self.ints.len() {
                        let x = &self.ints[i];
                        let due = if server { self.up[x.client] && self.plan["durable"] != json!(true) } else { x.client == n };
                        if x.open && due {
                            self.reopen(i);
                        }
                    }
                }
            }
        }
    }
    // ---- opening ----
    fn open(&mut self, i: usize) {
        let n = if self.ints[i].what == "url" { self.server() } else { self.ints[i].client };
        if self.ints[i].over || !self.up[n] || !self.up[self.ints[i].client] {
            self.ints[i].over = true;
            return;
        }
        self.ints[i].open = true;
        self.send_open(i);
    }
    fn reopen(&mut self, i: usize) {
        self.ids += 1;
        let x = &mut self.ints[i];
        x.gen += 1;
        x.id = if x.id.is_string() { json!(format!("again{}", self.ids)) } else { json!(3_000_000 + self.ids) };
        x.frame["id"] = x.id.clone();
        x.answered = false;
        x.over = false;
        self.w.bump("reopened");
        self.send_open(i);
    }
    fn send_open(&mut self, i: usize) {
        let f = self.ints[i].frame.clone();
        let ty = st(&self.ops[i], "ty").to_string();
        let url = self.ints[i].what == "url";
        let m = self.put(i, "open", "request", &ty, f, !url, None);
        self.transmit(m, 0);
    }
    #[allow(clippy::too_many_arguments)]
    fn put(&mut self, i: usize, what: &'static str, kind: &'static str, ty: &str, frame: Value, to_server: bool, text: Option<String>) -> usize {
        let name = self.w.nth(&format!("{}:{what}", self.u(i)));
        let text = text.unwrap_or_else(|| {
            let mut r = self.w.choice(&format!("text:{name}"));
            scramble(&frame, &mut r, un(&self.ops[i], "style") as usize)
        });
        self.msgs.push(Msg { i, gen: self.ints[i].gen, what, kind, ty: ty.into(), frame, text, name, to_server, client: self.ints[i].client, settled: false, last: false });
        self.msgs.len() - 1
    }
    fn transmit(&mut self, m: usize, n: u64) {
        let (name, text, to_server) = (self.msgs[m].name.clone(), self.msgs[m].text.clone(), self.msgs[m].to_server);
        post(&mut self.w, &format!("{name}~{n}"), &text, |t, _| if to_server { Ev::ToServer { m, text: t } } else { Ev::ToClient { m, text: t } });
        let rto = un(self.plan, "rto").max(1);
        if self.msgs[m].kind == "request" || matches!(self.msgs[m].what, "cancel" | "ended") {
            self.w.after(rto * (n + 1).min(4), Ev::Again { m, n });
        }
    }
    /// Judge the frame, and read what it is about.
    fn read(&mut self, m: usize, text: &str, open: Vec<Value>) -> Option<(Value, String)> {
        let side = if self.msgs[m].to_server { "c" } else { "s" };
        let (kind, ty, frame) = (self.msgs[m].kind, self.msgs[m].ty.clone(), self.msgs[m].frame.clone());
        let e = Exp { side, kind, ty: &ty, frame: &frame };
        let key = self.w.nth(&format!("h{}", self.msgs[m].name));
        let (_, enc) = hear(&mut self.w, self.ver, &e, text, &key)?;
        let rep = self.call(json!({"op": "tie", "side": side, "text": text, "open": open}));
        if !rep["ok"].is_object() {
            self.bad("unreadable", format!("the typed form of {frame} cannot be read: {rep}"));
            return None;
        }
        Some((rep["ok"].clone(), enc))
    }
    // ---- server ----
    fn restore(&mut self) {
        // the store holds the library's own encodings of the requests
        for k in 0..self.kept.len() {
            let (text, was) = (self.kept[k].stored.clone(), self.kept[k].told.clone());
            let rep = self.call(json!({"op": "tie", "side": "c", "text": text, "open": []}));
            let mut now = rep["ok"].clone();
            let mut before = was.clone();
            for x in [&mut now, &mut before] {
                if let Some(m) = x.as_object_mut() {
                    m.remove("at");
                }
            }
            if now != before {
                self.bad("restored otherwise", format!("a stored request reads differently after a restart: {before} became {now}; stored {text}"));
                return;
            }
            self.kept[k].told = rep["ok"].clone();
            self.w.bump("interests_restored");
        }
    }
    fn open_at_server(&self, client: usize) -> Vec<usize> {
        (0..self.kept.len()).filter(|&k| self.kept[k].client == client).collect()
    }
    fn at_server(&mut self, m: usize, text: String) {
        let (i, gen, what, client) = (self.msgs[m].i, self.msgs[m].gen, self.msgs[m].what, self.msgs[m].client);
        let mine = self.open_at_server(client);
        let open: Vec<Value> = mine.iter().map(|&k| self.kept[k].id.clone()).collect();
        let Some((told, enc)) = self.read(m, &text, open) else { return };
        let frame = self.msgs[m].frame.clone();
        let stale = self.ints[i].gen != gen;
        match what {
            "open" => {
                if stale {
                    return;
                }
                let want = match self.ints[i].what.as_str() {
                    "uri" => json!({"what": "subscribe", "uri": frame["params"]["uri"]}),
                    "listen" => {
                        let n = &frame["params"]["notifications"];
                        let b = |k: &str| n[k] == json!(true);
                        json!({"what": "listen", "id": frame["id"], "filter": {"tools": b("toolsListChanged"), "prompts": b("promptsListChanged"), "resources": b("resourcesListChanged"), "uris": n.get("resourceSubscriptions").cloned().unwrap_or(json!([]))}})
                    }
                    _ => json!({"what": "call", "token": self.ops[i]["token"]}),
                };
                for (k, x) in want.as_object().unwrap() {
                    if told[k] != *x {
                        self.bad(&format!("{}|{k}", st(&want, "what")), format!("{frame} is read by the server as {k} {} and not {x}", told[k]));
                        return;
                    }
                }
                let known = mine.iter().find(|&&k| self.kept[k].id == frame["id"]).copied();
                if self.ints[i].what == "listen" && told["at"].as_u64().map(|a| mine[a as usize]) != known {
                    self.bad("lookup of the stream id", format!("stream {} of client {client} is found as {} among {:?}", frame["id"], told["at"], mine.iter().map(|&k| self.kept[k].id.to_string()).collect::<Vec<_>>()));
                    return;
                }
                if known.is_none() && !self.ints[i].over {
                    self.kept.push(Kept { client, gen, i, id: frame["id"].clone(), told: told.clone(), stored: enc.clone() });
                    self.ints[i].known = true;
                    self.w.bump("interests_opened");
                    if self.ints[i].what == "call" {
                        let d = un(&self.ops[i]["steps"][0], "dt") + 1;
                        self.w.after(d, Ev::Tick { i, gen, k: 0 });
                    }
                } else {
                    self.w.bump("duplicate_suppressed");
                }
                match self.ints[i].what.as_str() {
                    "listen" => {
                        // the acknowledgement names the stream by the id the library gave the server
                        let n: Value = serde_json::from_str::<Value>(&enc).map(|x| x["params"]["notifications"].clone()).unwrap_or_default();
                        let f = self.supported(&n);
                        self.about(i, "ack", &told["id"], json!({"filter": f}), true, false);
                    }
                    "uri" => {
                        let f = frame_response(&frame["id"], json!({}));
                        let m = self.put(i, "answer", "response", "Result", f, false, None);
                        self.transmit(m, 0);
                    }
                    _ => {}
                }
            }
            "unsubscribe" => {
                if told["what"] != "unsubscribe" || told["uri"] != frame["params"]["uri"] {
                    self.bad("unsubscribe", format!("{frame} is read by the server as {told}"));
                    return;
                }
                if !stale {
                    let uri = st(&told, "uri").to_string();
                    self.kept.retain(|k| !(k.client == client && st(&k.told, "what") == "subscribe" && st(&k.told, "uri") == uri));
                    self.ints[i].known = false;
                    self.check_kept();
                    let f = frame_response(&frame["id"], json!({}));
                    let m = self.put(i, "unanswer", "response", "Result", f, false, None);
                    self.transmit(m, 0);
                }
            }
            "cancel" => {
                let truth = mine.iter().position(|&k| self.kept[k].id == frame["params"]["requestId"]);
                if told["what"] != "cancelled" || told["id"] != frame["params"]["requestId"] || told["at"].as_u64().map(|x| x as usize) != truth {
                    self.bad("cancelled", format!("{frame} should name open interest {truth:?} of {:?} and is read as {told}", mine.iter().map(|&k| self.kept[k].id.to_string()).collect::<Vec<_>>()));
                    return;
                }
                if let Some(a) = told["at"].as_u64() {
                    let k = mine[a as usize];
                    let j = self.kept[k].i;
                    self.kept.remove(k);
                    self.ints[j].known = false;
                    self.w.bump("interests_cancelled");
                    self.check_kept();
                }
                self.msgs[m].settled = true;
            }
            "done" => {
                // the client has accepted the visit
                self.msgs[m].settled = true;
                for x in &mut self.msgs {
                    if x.i == i && x.what == "open" {
                        x.settled = true;
                    }
                }
                if !self.ints[i].answered {
                    self.ints[i].answered = true;
                    self.w.after(300, Ev::Tick { i, gen, k: 0 });
                }
            }
            _ => {}
        }
    }
    fn check_kept(&mut self) {
        for i in 0..self.ints.len() {
            let have = self.kept.iter().any(|k| k.i == i && k.gen == self.ints[i].gen);
            if have != self.ints[i].known && self.ints[i].what != "url" {
                self.bad("wrong interest ended", format!("interest {} of client {} is {} at the server", self.ints[i].frame, self.ints[i].client, if have { "still open" } else { "gone" }));
                return;
            }
        }
    }
    /// Something happened: every stream that asked for it is told.
    fn happen(&mut self, what: &str, uri: &str, s: &Value, key: &str, last: bool) {
        if !self.up[self.server()] {
            return;
        }
        self.w.note(&format!("happens {key} {what}"), uri);
        for k in 0..self.kept.len() {
            let (i, told) = (self.kept[k].i, self.kept[k].told.clone());
            // the server goes by what the library told it
            let goes = match st(&told, "what") {
                "subscribe" => what == "updated" && told["uri"] == uri,
                "listen" => {
                    let cap = self.plan["supports"][if what == "updated" { "resources" } else { what }] == json!(true);
                    cap && match what {
                        "updated" => told["filter"]["uris"].as_array().is_some_and(|a| a.iter().any(|x| x == uri)),
                        w => told["filter"][w] == json!(true),
                    }
                }
                _ => false,
            };
            if goes != self.covers(i, what, uri) && self.kept[k].gen == self.ints[i].gen {
                self.bad("coverage", format!("{what} {uri} {} {} by the library's reading of it", if goes { "is covered by" } else { "is not covered by" }, self.ints[i].frame));
                return;
            }
            if goes {
                let id = if st(&told, "what") == "listen" { told["id"].clone() } else { Value::Null };
                let w: &'static str = match what {
                    "tools" => "tools",
                    "prompts" => "prompts",
                    "resources" => "resources",
                    _ => "updated",
                };
                self.w.bump("notifications_sent");
                self.about(i, w, &id, json!({"uri": uri, "extra": s["extra"]}), s["typed"] == json!(true), last);
            }
        }
    }
    /// A notification about an interest, made through the library's typed forms or as text.
    fn about(&mut self, i: usize, what: &'static str, sub: &Value, x: Value, typed: bool, last: bool) {
        let c = self.ver.fam == Fam::C;
        let mut p = Map::new();
        if c && !sub.is_null() {
            let mut m = Map::new();
            if let Some(e) = x["extra"].as_object() {
                m = e.clone();
            }
            m.insert(SUB.into(), sub.clone());
            p.insert("_meta".into(), Value::Object(m));
        }
        let ty = match what {
            "tools" => "ToolListChangedNotification",
            "prompts" => "PromptListChangedNotification",
            "resources" => "ResourceListChangedNotification",
            "ack" => {
                p.insert("notifications".into(), x["filter"].clone());
                "SubscriptionsAcknowledgedNotification"
            }
            "complete" => {
                p.insert("elicitationId".into(), x["eid"].clone());
                "ElicitationCompleteNotification"
            }
            "progress" => {
                p.insert("progressToken".into(), x["token"].clone());
                p.insert("progress".into(), x["progress"].clone());
                if !x["total"].is_null() {
                    p.insert("total".into(), x["total"].clone());
                }
                "ProgressNotification"
            }
            _ => {
                p.insert("uri".into(), x["uri"].clone());
                "ResourceUpdatedNotification"
            }
        };
        let empty = p.is_empty();
        let f = frame_notification(self.ver.method_of(ty), if empty { None } else { Some(Value::Object(p)) });
        let mut text = None;
        if typed {
            let mut q = x.clone();
            q["op"] = json!("tie_make");
            q["what"] = json!(what);
            q["sub"] = sub.clone();
            let rep = self.call(q);
            let Some(enc) = rep["ok"]["enc"].as_str().map(str::to_string) else {
                self.bad(&format!("making {what}"), format!("a {ty} could not be made: {rep}"));
                return;
            };
            let got: Value = serde_json::from_str(&enc).unwrap_or(Value::Null);
            if let Some((pt, d)) = diff(&f, &got) {
                self.bad(&format!("made {what}|{}", generic_path(&pt)), format!("{pt} {d}: wanted {f}, the library made {enc}"));
                return;
            }
            text = Some(enc);
        }
        let m = self.put(i, what, "notification", ty, f, false, text);
        self.msgs[m].last = last;
        self.transmit(m, 0);
    }
    /// Work goes on: progress, the end of a call, the end of a visit.
    fn tick(&mut self, i: usize, gen: u64, k: u64) {
        if !self.up[self.server()] {
            self.w.after(100, Ev::Tick { i, gen, k });
            return;
        }
        if self.ints[i].what == "url" {
            let eid = self.ops[i]["eid"].clone();
            self.about(i, "complete", &Value::Null, json!({"eid": eid}), self.ops[i]["typed"] == json!(true), true);
            return;
        }
        let Some(kept) = self.kept.iter().find(|x| x.i == i && x.gen == gen) else { return };
        let token = kept.told["token"].clone();
        let steps = self.ops[i]["steps"].as_array().cloned().unwrap_or_default();
        if let Some(s) = steps.get(k as usize).filter(|_| !token.is_null()) {
            self.w.bump("progress_sent");
            self.about(i, "progress", &Value::Null, json!({"token": token, "progress": s["progress"], "total": s["total"]}), self.ops[i]["typed"] == json!(true), false);
            let d = steps.get(k as usize + 1).map(|s| un(s, "dt")).unwrap_or(50) + 1;
            self.w.after(d, Ev::Tick { i, gen, k: k + 1 });
            return;
        }
        // the result, again and again until the client has it
        if self.ints[i].gen == gen && !self.ints[i].answered && self.ints[i].open && self.w.now < self.w.heal + 11_000 {
            let fin = self.ops[i]["final"].clone();
            let mut f = fin["frame"].clone();
            f["id"] = self.ints[i].id.clone();
            let m = self.put(i, "answer", "response", st(&fin, "ty"), f, false, None);
            self.transmit(m, 0);
            self.w.after(un(self.plan, "rto").max(1), Ev::Tick { i, gen, k });
        }
    }
    fn close(&mut self, i: usize) {
        let x = self.ints[i].clone();
        if !x.open || x.over {
            self.ints[i].over = true;
            return;
        }
        if self.ops[i]["close"]["by"] == "s" {
            // the server tears the stream down
            let Some(k) = self.kept.iter().position(|k| k.i == i && k.gen == x.gen) else { return };
            if !self.up[self.server()] {
                return;
            }
            let id = self.kept[k].told["id"].clone();
            self.kept.remove(k);
            self.ints[i].known = false;
            self.ints[i].over = true;
            let f = frame_response(&x.id, json!({"resultType": "complete", "_meta": {SUB: x.id}}));
            let rep = self.call(json!({"op": "tie_make", "what": "ended", "id": id, "route": un(&self.ops[i], "route")}));
            let enc = st(&rep["ok"], "enc").to_string();
            let got: Value = serde_json::from_str(&enc).unwrap_or(Value::Null);
            if let Some((p, d)) = diff(&f, &got) {
                self.bad(&format!("made ended|{}", generic_path(&p)), format!("{p} {d}: wanted {f}, the library made {rep}"));
                return;
            }
            self.w.bump("streams_ended_by_server");
            let m = self.put(i, "ended", "response", "SubscriptionsListenResult", f, false, Some(enc));
            self.transmit(m, 0);
            return;
        }
        if !self.up[x.client] || x.what == "url" {
            return;
        }
        self.ints[i].open = false;
        self.ints[i].over = true;
        for m in &mut self.msgs {
            if m.i == i && m.what == "open" {
                m.settled = true;
            }
        }
        self.w.bump("closed_by_client");
        self.ids += 1;
        if x.what == "uri" {
            let id = json!(format!("un{}", self.ids));
            let f = frame_request(&id, self.ver.method_of("UnsubscribeRequest"), Some(json!({"uri": x.frame["params"]["uri"]})));
            let m = self.put(i, "unsubscribe", "request", "UnsubscribeRequest", f, true, None);
            self.transmit(m, 0);
            return;
        }
        let reason = if self.w.choice(&format!("why{i}")).p(0.5) { json!("enough") } else { Value::Null };
        let mut p = json!({"requestId": x.id});
        if !reason.is_null() {
            p["reason"] = reason.clone();
        }
        let f = frame_notification(self.ver.method_of("CancelledNotification"), Some(p));
        let mut text = None;
        if self.ops[i]["typed"] == json!(true) {
            let rep = self.call(json!({"op": "tie_make", "what": "cancelled", "id": x.id, "reason": reason}));
            let enc = st(&rep["ok"], "enc").to_string();
            let got: Value = serde_json::from_str(&enc).unwrap_or(Value::Null);
            if let Some((p, d)) = diff(&f, &got) {
                self.bad(&format!("made cancelled|{}", generic_path(&p)), format!("{p} {d}: wanted {f}, the library made {rep}"));
                return;
            }
            text = Some(enc);
        }
        let m = self.put(i, "cancel", "notification", "CancelledNotification", f, true, text);
        self.transmit(m, 0);
    }
    // ---- client ----
    fn at_client(&mut self, m: usize, text: String) {
        let (i, gen, what, client) = (self.msgs[m].i, self.msgs[m].gen, self.msgs[m].what, self.msgs[m].client);
        let mine: Vec<usize> = (0..self.ints.len()).filter(|&j| self.ints[j].client == client && self.ints[j].open && self.ints[j].what != "url").collect();
        let open: Vec<Value> = mine.iter().map(|&j| self.ints[j].id.clone()).collect();
        let Some((told, _)) = self.read(m, &text, open) else { return };
        let current = self.ints[i].open && self.ints[i].gen == gen;
        let frame = self.msgs[m].frame.clone();
        let say = |told: &Value| format!("{frame} belongs to interest {i} ({}) and is read as {told}", if current { "open" } else { "closed" });
        let truth = if current { mine.iter().position(|&j| j == i) } else { None };
        let routed = |told: &Value, k: &str| told[k].as_u64().map(|x| x as usize);
        match what {
            "ack" | "tools" | "prompts" | "resources" | "updated" => {
                if told["what"] != what {
                    self.bad(&format!("{what}|as another"), say(&told));
                    return;
                }
                if what == "updated" && told["uri"] != frame["params"]["uri"] {
                    self.bad("updated|uri", say(&told));
                    return;
                }
                if self.ver.fam == Fam::C {
                    if told["sub"] != frame["params"]["_meta"][SUB] || routed(&told, "at") != truth {
                        self.bad(&format!("{what}|stream"), say(&told));
                        return;
                    }
                } else if what == "updated" {
                    // routed by the resource
                    let to: Vec<usize> = mine.iter().copied().filter(|&j| self.ints[j].frame["params"]["uri"] == told["uri"] && self.ints[j].what == "uri").collect();
                    if current && to != [i] {
                        self.bad("updated|resource", say(&told));
                        return;
                    }
                }
                if !current {
                    self.w.bump("stale_notification_ignored");
                    return;
                }
                self.w.bump("notifications_routed");
                if what == "ack" {
                    let n = self.supported(&self.ints[i].frame["params"]["notifications"]);
                    let b = |k: &str| n[k] == json!(true);
                    let want = json!({"tools": b("toolsListChanged"), "prompts": b("promptsListChanged"), "resources": b("resourcesListChanged"), "uris": n.get("resourceSubscriptions").cloned().unwrap_or(json!([]))});
                    if told["filter"] != want {
                        self.bad("ack|filter", format!("the server agreed to {want}; {}", say(&told)));
                        return;
                    }
                    self.answered(i);
                } else if self.msgs[m].last {
                    self.ints[i].last += 1;
                }
            }
            "progress" => {
                if told["what"] != "progress" || !same(&told["token"], &self.ops[i]["token"]) || told["token"].is_string() != self.ops[i]["token"].is_string() {
                    self.bad("progress|token", say(&told));
                    return;
                }
                if !same(&told["progress"], &frame["params"]["progress"]) || !same(&told["total"], frame["params"].get("total").unwrap_or(&Value::Null)) {
                    self.bad("progress|amount", say(&told));
                    return;
                }
                self.w.bump("progress_routed");
            }
            "answer" => {
                if current {
                    let done = self.ints[i].what == "call";
                    self.answered(i);
                    if done {
                        self.ints[i].over = true;
                        self.ints[i].open = false;
                        if let Some(k) = self.kept.iter().position(|k| k.i == i && k.gen == gen) {
                            self.kept.remove(k);
                        }
                        self.ints[i].known = false;
                    }
                }
            }
            "unanswer" => {
                for x in &mut self.msgs {
                    if x.i == i && x.what == "unsubscribe" {
                        x.settled = true;
                    }
                }
            }
            "ended" => {
                if told["what"] != "ended" || told["same"] != json!(true) || told["id"] != frame["id"] || told["sub"] != frame["id"] || routed(&told, "at") != truth || routed(&told, "at_id") != truth {
                    self.bad("ended", say(&told));
                    return;
                }
                self.msgs[m].settled = true;
                if current {
                    self.answered(i);
                    self.ints[i].open = false;
                    self.w.bump("streams_ended");
                }
            }
            "open" => {
                // a visit is asked for
                if told["what"] != "url" || told["eid"] != self.ops[i]["eid"] {
                    self.bad("url|id", say(&told));
                    return;
                }
                let f = frame_response(&frame["id"], json!({"action": "accept"}));
                let x = self.put(i, "done", "response", "ElicitResult", f, true, None);
                self.transmit(x, 0);
            }
            _ => {
                if told["what"] != "complete" || told["eid"] != self.ops[i]["eid"] {
                    self.bad("complete|id", say(&told));
                    return;
                }
                self.w.bump("visits_completed");
            }
        }
    }
    fn answered(&mut self, i: usize) {
        self.ints[i].answered = true;
        for x in &mut self.msgs {
            if x.i == i && x.what == "open" {
                x.settled = true;
            }
        }
    }
}
