//! Paused requests: a server answers an operation by demanding input, round after round; the client resolves each demand
//! under its key and retries through the library's builders; the server keeps nothing between messages but what is echoed.
use crate::cat::*;
use crate::check::*;
use crate::jsonx::*;
use crate::net::*;
use crate::rng::*;
use crate::session::scramble;
use crate::world::*;
use crate::{Ctx, Outcome};
use serde_json::{json, Map, Value};
use std::collections::HashMap;

pub enum Ev {
    Start(usize),
    AtServer { x: usize, round: usize, att: u64, id: Value, text: String, chain: String },
    AtClient { x: usize, round: usize, id: Value, text: String },
    Timer { x: usize, round: usize, att: u64, epoch: u64 },
    Resolved { x: usize, round: usize, epoch: u64 },
    Reply { x: usize, round: usize, att: u64, id: Value, epoch: u64 },
    Down(usize, u64),
    Up(usize),
}

const OPS: &[(&str, &str)] = &[("CallToolRequest", "CallToolResult"), ("GetPromptRequest", "GetPromptResult"), ("ReadResourceRequest", "ReadResourceResult")];
const ASK: &[(&str, &str)] = &[("CreateMessageRequest", "CreateMessageResult"), ("ListRootsRequest", "ListRootsResult"), ("ElicitRequest", "ElicitResult")];

pub fn plan(ctx: &Ctx, seed: u64, prop: &str) -> Value {
    let mut rr = Rng::new(hash_str(seed, prop));
    let r = &mut rr;
    let v = &ctx.vers[4 + r.below(2)];
    let mut g = gen_for(v, r);
    g.depth = g.depth.min(4);
    let mut used = vec![];
    let mut ops = vec![];
    for u in 0..r.range(1, 4) {
        let (ty, res) = *r.pick(OPS);
        let id = fresh_id(r, &mut used);
        let mut f = v.request(&g, r, ty, &id);
        // a first request carries neither answers nor state, unless the client resumes an earlier exchange
        if let Some(p) = f["params"].as_object_mut() {
            if !r.p(0.15) {
                p.remove("inputResponses");
                p.remove("requestState");
            }
        }
        let mut rounds = vec![];
        let count = *r.pick(&[0, 1, 1, 2, 2, 3, 5]);
        for k in 0..r.scale(count, count, 0.004, 20) as usize {
            rounds.push(round(v, &g, r, u as usize, k));
        }
        let fin = if r.p(0.15) {
            json!({"kind": "error", "ty": "error", "frame": frame_error(&id, crate::gen::error_obj(&g, r))})
        } else {
            let mut b = v.result(&g, r, res);
            // a peer of an older version does not name the kind of its result
            let old = r.p(0.2);
            if old {
                b.as_object_mut().unwrap().remove("resultType");
            }
            json!({"kind": "response", "ty": res, "frame": frame_response(&id, b), "old": old})
        };
        ops.push(json!({"u": u, "t": r.below(1500), "from": "c", "kind": "request", "ty": ty, "frame": f, "style": r.below(4), "rounds": rounds, "final": fin, "think": r.below(400), "work": r.below(100)}));
    }
    let mut events = vec![];
    for _ in 0..r.below(4) {
        events.push(json!({"e": "crash", "n": if r.p(0.65) { 1 } else { 0 }, "t": r.below(3000), "down": 1 + r.below(400)}));
    }
    json!({"scn": "flow", "prop": prop, "seed": seed, "vers": [v.idx], "net_seed": r.next() >> 8, "prof": Profile::draw(r, 0.0), "rto": *r.pick(&[200u64, 500]), "heal": 4000, "ops": ops, "events": events, "faults": null})
}

fn round(v: &Ver, g: &crate::schema::Gen, r: &mut Rng, u: usize, k: usize) -> Value {
    let mut base = v.result(g, r, "InputRequiredResult");
    let m = base.as_object_mut().unwrap();
    m.remove("inputRequests");
    m.remove("requestState");
    m.insert("resultType".into(), json!("input_required"));
    let mut inputs = Map::new();
    let mut answers = vec![];
    for j in 0..*r.pick(&[0usize, 1, 1, 2, 3, 6]) {
        let (q, a) = *r.pick(ASK);
        // keys that are easily confused
        let key = match r.below(6) {
            0 => r.pick(&["", "0", "00", "a", "A", "a.b", "a/b", "é", "resultType", "requestState", "inputRequests", "method", "\"", "\n", "key", "key ", "roots", "content"]).to_string(),
            1 => format!("k{j}"),
            2 => format!("{}", 9 - j),
            3 => format!("k{}", j + 9),
            _ => g.string(r),
        };
        if inputs.contains_key(&key) {
            continue;
        }
        inputs.insert(key.clone(), json!(null));
        let mut b = Map::new();
        b.insert("method".into(), json!(v.method_of(q)));
        if let Some(p) = v.body(g, r, q) {
            b.insert("params".into(), p);
        }
        inputs.insert(key.clone(), Value::Object(b));
        if !r.p(0.1) {
            answers.push(json!([key, a, v.result(g, r, a)]));
        }
    }
    r.shuffle(&mut answers);
    let has_inputs = !inputs.is_empty() || r.p(0.2);
    let state = if r.p(if has_inputs { 0.7 } else { 1.0 }) { json!(format!("{}{}", r.pick(&["", "s:", "{\"a\":1}", " ", "\n", "é🦀", "\\\"", "null", "0"]), if r.p(0.2) { String::new() } else { format!("{u}.{k}.{}", g.string(r)) })) } else { Value::Null };
    let mut o = json!({"base": base, "state": state, "answers": answers, "earlier": r.p(0.2), "route": r.below(4), "dr": r.below(5), "prev": r.p(0.4), "built": r.p(0.6), "style": r.below(4)});
    if has_inputs {
        o["inputs"] = Value::Object(inputs);
    }
    o
}

struct F<'a> {
    ver: &'a Ver,
    plan: &'a Value,
    w: World<Ev>,
    ops: Vec<Value>,
    up: [bool; 2],
    epoch: [u64; 2],
    // what the client holds in memory
    pending: HashMap<String, (usize, usize)>,
    seen: HashMap<String, usize>,
    /// per exchange: the request of the current round, and what it must be
    cur: Vec<Option<(String, Value)>>,
    at: Vec<usize>,
    ids: u64,
    started: Vec<bool>,
    done: Vec<bool>,
    /// per exchange: the answers of every round so far, as the server will have to find them
    sent: HashMap<String, Value>,
}

pub fn run(ctx: &Ctx, plan: &Value, trace: bool) -> Outcome {
    let ops = plan["ops"].as_array().unwrap().clone();
    let k = ops.len();
    let mut f = F {
        ver: &ctx.vers[plan["vers"][0].as_u64().unwrap() as usize],
        plan,
        w: World::new(plan, trace),
        ops,
        up: [true; 2],
        epoch: [0; 2],
        pending: HashMap::new(),
        seen: HashMap::new(),
        cur: vec![None; k],
        at: vec![0; k],
        ids: 0,
        started: vec![false; k],
        done: vec![false; k],
        sent: HashMap::new(),
    };
    for i in 0..k {
        let t = un(&f.ops[i], "t");
        f.w.at(t, Ev::Start(i));
    }
    for e in plan["events"].as_array().unwrap() {
        f.w.at(un(e, "t"), Ev::Down((un(e, "n") as usize).min(1), un(e, "down")));
    }
    f.go();
    for i in 0..k {
        if f.started[i] && !f.done[i] && f.w.viols.is_empty() {
            let t = format!("the exchange of {} {} never reached its final result although faults stopped", st(&f.ops[i], "ty"), f.ops[i]["frame"]["id"]);
            f.bad("stuck", t);
        }
    }
    for i in 0..k {
        let s = shape(&f.ops[i], hash_str(f.ver.idx as u64, "flow"));
        f.w.shapes.insert(s);
    }
    Outcome::of(f.w)
}

impl F<'_> {
    fn bad(&mut self, what: &str, text: String) {
        let x = v("flow", self.ver, what, text);
        self.w.viols.push(x);
    }
    fn rounds(&self, x: usize) -> usize {
        self.ops[x]["rounds"].as_array().map_or(0, Vec::len)
    }
    fn go(&mut self) {
        while let Some(e) = self.w.pop() {
            if self.w.steps > 8000 || self.w.viols.len() > 40 {
                return;
            }
            match e {
                Ev::Start(x) => {
                    self.started[x] = true;
                    if self.up[0] {
                        self.begin(x);
                    }
                }
                Ev::Timer { x, round, att, epoch } => {
                    if self.up[0] && epoch == self.epoch[0] && !self.done[x] && self.at[x] == round && self.w.now < self.w.heal + 20_000 {
                        if let Some((_, f)) = &self.cur[x] {
                            if self.pending.contains_key(&id_key(&f["id"])) {
                                self.w.bump("retransmission");
                                self.transmit(x, att + 1);
                            }
                        }
                    }
                }
                Ev::AtServer { x, round, att, id, text, chain } => {
                    if self.up[1] {
                        self.serve(x, round, att, id, text, chain);
                    } else {
                        self.w.bump("lost_to_crashed_node");
                    }
                }
                Ev::Reply { x, round, att, id, epoch } => {
                    if self.up[1] && epoch == self.epoch[1] {
                        self.answer(x, round, att, id);
                    }
                }
                Ev::AtClient { x, round, id, text } => {
                    if self.up[0] {
                        self.receive(x, round, id, text);
                    } else {
                        self.w.bump("lost_to_crashed_node");
                    }
                }
                Ev::Resolved { x, round, epoch } => {
                    if self.up[0] && epoch == self.epoch[0] && self.at[x] == round {
                        self.retry(x, round);
                    }
                }
                Ev::Down(n, down) => {
                    if self.up[n] {
                        self.w.bump("crash");
                        self.w.note(&format!("crash {n}"), "");
                        self.up[n] = false;
                        self.epoch[n] += 1;
                        if n == 0 {
                            self.pending.clear();
                            self.seen.clear();
                            self.cur.iter_mut().for_each(|c| *c = None);
                        }
                        self.w.after(down, Ev::Up(n));
                    }
                }
                Ev::Up(n) => {
                    self.w.bump("restart");
                    self.up[n] = true;
                    if n == 0 {
                        for x in 0..self.ops.len() {
                            if self.started[x] && !self.done[x] {
                                self.begin(x);
                            }
                        }
                    }
                }
            }
        }
    }
    fn new_id(&mut self, x: usize) -> Value {
        self.ids += 1;
        if self.ops[x]["frame"]["id"].is_string() { json!(format!("r{}", self.ids)) } else { json!(1_000_000 + self.ids) }
    }
    /// The exchange starts (again) with the original request.
    fn begin(&mut self, x: usize) {
        let mut f = self.ops[x]["frame"].clone();
        if self.epoch[0] > 0 {
            f["id"] = self.new_id(x);
        }
        let mut r = self.w.choice(&format!("compose:{}", un(&self.ops[x], "u")));
        let text = scramble(&f, &mut r, un(&self.ops[x], "style") as usize);
        self.at[x] = 0;
        self.put(x, text, f);
    }
    fn put(&mut self, x: usize, text: String, f: Value) {
        let id = id_key(&f["id"]);
        self.pending.insert(id.clone(), (x, self.at[x]));
        self.sent.insert(id, f.clone());
        self.cur[x] = Some((text, f));
        self.transmit(x, 0);
    }
    fn transmit(&mut self, x: usize, att: u64) {
        let Some((text, f)) = self.cur[x].clone() else { return };
        let (round, id) = (self.at[x], f["id"].clone());
        let chain = format!("{}:{round}:{att}:e{}", un(&self.ops[x], "u"), self.epoch[0]);
        post(&mut self.w, &format!("q{chain}"), &text, |t, _| Ev::AtServer { x, round, att, id: id.clone(), text: t, chain: chain.clone() });
        let epoch = self.epoch[0];
        self.w.after(un(self.plan, "rto").max(1) * (att + 1).min(4), Ev::Timer { x, round, att, epoch });
    }
    /// The server hears a request. Which round it is must follow from the message alone.
    fn serve(&mut self, x: usize, round: usize, att: u64, id: Value, text: String, chain: String) {
        let Some(frame) = self.sent.get(&id_key(&id)).cloned() else { return };
        let ty = st(&self.ops[x], "ty").to_string();
        let e = Exp { side: "c", kind: "request", ty: &ty, frame: &frame };
        let key = self.w.nth(&format!("s{chain}"));
        let Some((_, enc)) = hear(&mut self.w, self.ver, &e, &text, &key) else { return };
        self.w.bump("requests_served");
        if round > 0 {
            self.w.bump("retries_resumed_from_message");
            // what the server goes by: the echoed state and the keys of the answers
            let got: Value = serde_json::from_str(&enc).unwrap_or(Value::Null);
            let rd = self.ops[x]["rounds"][round - 1].clone();
            let want = rd["state"].clone();
            if got["params"]["requestState"] != want {
                let t = format!("the server handed out state {want} and gets {} back", got["params"]["requestState"]);
                self.bad("state", t);
            }
            let mut a: Vec<String> = rd["answers"].as_array().unwrap().iter().map(|a| st_of(&a[0])).collect();
            let mut b: Vec<String> = got["params"]["inputResponses"].as_object().map(|m| m.keys().cloned().collect()).unwrap_or_default();
            a.sort();
            b.sort();
            if a != b {
                let t = format!("answers were given under {a:?} and reach the server under {b:?}");
                self.bad("keys", t);
            }
        }
        let epoch = self.epoch[1];
        let d = 1 + un(&self.ops[x], "work");
        self.w.after(d, Ev::Reply { x, round, att, id, epoch });
    }
    fn demand_frame(&self, x: usize, round: usize, id: &Value) -> Value {
        let rd = &self.ops[x]["rounds"][round];
        let mut b = rd["base"].clone();
        if let Some(q) = rd.get("inputs") {
            b["inputRequests"] = q.clone();
        }
        if rd["state"].is_string() {
            b["requestState"] = rd["state"].clone();
        }
        frame_response(id, b)
    }
    fn final_frame(&self, x: usize, id: &Value) -> Value {
        let mut f = self.ops[x]["final"]["frame"].clone();
        f["id"] = id.clone();
        f
    }
    fn answer(&mut self, x: usize, round: usize, att: u64, id: Value) {
        let key = self.w.nth(&format!("a{}:{round}:{att}", un(&self.ops[x], "u")));
        let mut r = self.w.choice(&format!("say:{key}"));
        let text;
        if round < self.rounds(x) {
            let frame = self.demand_frame(x, round, &id);
            let rd = self.ops[x]["rounds"][round].clone();
            if rd["built"] == json!(true) {
                let mut q = json!({"op": "flow", "what": "demand", "base": rd["base"], "id": id});
                if rd.get("inputs").is_some() {
                    q["inputs"] = rd["inputs"].clone();
                }
                if rd["state"].is_string() {
                    q["state"] = rd["state"].clone();
                }
                let rep = self.ver.lib.call(&q);
                let Some(enc) = self.expect("demand", &rep, &frame) else { return };
                text = enc;
            } else {
                text = scramble(&frame, &mut r, un(&rd, "style") as usize);
            }
            self.w.bump("demands");
        } else {
            let frame = self.final_frame(x, &id);
            text = scramble(&frame, &mut r, un(&self.ops[x], "style") as usize);
        }
        post(&mut self.w, &format!("p{key}"), &text, |t, _| Ev::AtClient { x, round, id: id.clone(), text: t });
    }
    /// The result of a library builder: present, and exactly the frame it stands for.
    fn expect(&mut self, what: &str, rep: &Value, frame: &Value) -> Option<String> {
        let Some(enc) = rep["ok"]["enc"].as_str() else {
            let w = if rep.get("panic").is_some() { "panic" } else { "refused" };
            self.bad(&format!("{what} {w}"), format!("building the {what} {frame} failed: {rep}"));
            return None;
        };
        let got: Value = serde_json::from_str(enc).unwrap_or(Value::Null);
        let mut want = frame.clone();
        let mut got2 = got.clone();
        // no answers at all may be written as an empty map or left out
        for z in [&mut want, &mut got2] {
            if z["params"]["inputResponses"].as_object().is_some_and(Map::is_empty) {
                z["params"].as_object_mut().unwrap().remove("inputResponses");
            }
        }
        if let Some((p, w)) = diff(&want, &got2) {
            self.bad(&format!("{what}|{}", generic_path(&p)), format!("the {what} differs from what it was built from: {p} {w}; built {enc}, wanted {frame}"));
            return None;
        }
        Some(enc.to_string())
    }
    fn receive(&mut self, x: usize, round: usize, id: Value, text: String) {
        let demand = round < self.rounds(x);
        let (kind, ty, mut frame) = if demand {
            ("response".to_string(), "InputRequiredResult".to_string(), self.demand_frame(x, round, &id))
        } else {
            let f = &self.ops[x]["final"];
            (st(f, "kind").into(), st(f, "ty").into(), self.final_frame(x, &id))
        };
        // a result of unnamed kind is a complete one
        if kind == "response" && frame["result"].get("resultType").is_none() {
            frame["result"]["resultType"] = json!("complete");
        }
        let e = Exp { side: "s", kind: &kind, ty: &ty, frame: &frame };
        let key = self.w.nth(&format!("c{}:{round}", un(&self.ops[x], "u")));
        let Some((told, _)) = hear(&mut self.w, self.ver, &e, &text, &key) else { return };
        if kind == "response" && self.ops[x]["final"]["old"] != json!(true) && self.w.choice(&format!("op:{key}")).p(0.4) {
            self.as_operation(x, demand, &frame, &text, &key);
        }
        let Some((px, pr)) = self.pending.remove(&id_key(&told["id"])) else {
            self.w.bump("late_duplicate_reply_ignored");
            return;
        };
        if (px, pr) != (x, round) {
            self.bad("misdelivered", format!("the reply to {id} was matched to another request"));
            return;
        }
        // the client goes by what the library tells it
        let paused = st(&told, "kind") == "response" && told["acc"]["input_required"] == json!(true);
        if paused != demand {
            self.bad(if demand { "pause taken for final" } else { "final taken for pause" }, format!("the reply {}", short(&text, 400)));
            return;
        }
        if !paused {
            self.done[x] = true;
            self.cur[x] = None;
            self.w.bump("exchanges_finished");
            if self.w.choice(&format!("misuse:{key}")).p(0.05) {
                self.misuse(&key);
            }
            return;
        }
        let d = 1 + un(&self.ops[x], "think");
        let epoch = self.epoch[0];
        self.w.after(d, Ev::Resolved { x, round, epoch });
    }
    /// The same reply read as the reply type of its operation.
    fn as_operation(&mut self, x: usize, demand: bool, frame: &Value, text: &str, key: &str) {
        let ty = st(&self.ops[x], "ty").trim_end_matches("Request").to_string();
        let dr = self.w.choice(&format!("opdr:{key}")).below(5);
        let rep = self.ver.lib.call(&json!({"op": "flow", "what": "op_response", "ty": ty, "text": text, "dr": dr}));
        self.w.bump("operation_replies_read");
        let ctx = format!("{ty}ResultResponse read (route {dr}) from {}", short(text, 600));
        let Some(enc) = rep["ok"]["enc"].as_str() else {
            self.bad(&format!("op|{ty}|refused"), format!("{rep}; {ctx}"));
            return;
        };
        let want = if demand { "InputRequiredResult" } else { "final" };
        if rep["ok"]["which"] != want {
            self.bad(&format!("op|{ty}|{want} taken for {}", st(&rep["ok"], "which")), ctx);
            return;
        }
        let got: Value = serde_json::from_str(enc).unwrap_or(Value::Null);
        if let Some((p, w)) = diff(frame, &got) {
            self.bad(&format!("op|{ty}|{}", generic_path(&p)), format!("member {p} {w}; {ctx}"));
        }
    }
    fn retry(&mut self, x: usize, round: usize) {
        let rd = self.ops[x]["rounds"][round].clone();
        let Some((prev_text, prev)) = self.cur[x].clone() else { return };
        let mut r = self.w.choice(&format!("retry:{}:{round}", un(&self.ops[x], "u")));
        let (base_text, base) = if rd["prev"] == json!(true) {
            (prev_text, prev)
        } else {
            let f = self.ops[x]["frame"].clone();
            (scramble(&f, &mut r, un(&rd, "style") as usize), f)
        };
        let mut route = un(&rd, "route");
        // the parameter-wise builders leave an earlier state alone
        if rd["state"].is_null() && base["params"].get("requestState").is_some() {
            route %= 2;
        }
        self.at[x] = round + 1;
        let id = self.new_id(x);
        let mut want = base.clone();
        want["id"] = id.clone();
        let mut m = Map::new();
        for a in rd["answers"].as_array().unwrap() {
            m.insert(st_of(&a[0]), a[2].clone());
        }
        want["params"]["inputResponses"] = Value::Object(m);
        match &rd["state"] {
            Value::String(s) => want["params"]["requestState"] = json!(s),
            _ => {
                want["params"].as_object_mut().unwrap().remove("requestState");
            }
        }
        let mut q = json!({"op": "flow", "what": "retry", "text": base_text, "dr": un(&rd, "dr"), "answers": rd["answers"], "route": route, "id": id});
        if rd["state"].is_string() {
            q["state"] = rd["state"].clone();
        }
        // answers given before and replaced by these
        if rd["earlier"] == json!(true) {
            q["earlier"] = json!(true);
        }
        let rep = self.ver.lib.call(&q);
        self.w.bump("frames_handled");
        let n = rd["answers"].as_array().unwrap().len() as u64;
        if rep["ok"].is_object() && rep["ok"]["len"] != json!(n) {
            self.bad("answers", format!("{n} answers were collected, the builder counts {}", rep["ok"]["len"]));
        }
        let Some(enc) = self.expect("retry", &rep, &want) else { return };
        if r.p(0.1) {
            // the same answers through the parameters all retries share
            let p = &want["params"];
            let mut w = json!({"params": {"_meta": p["_meta"], "inputResponses": p["inputResponses"]}});
            let mut q = json!({"op": "flow", "what": "params", "base": {"_meta": p["_meta"]}, "answers": p["inputResponses"]});
            if rd["earlier"] == json!(true) {
                q["earlier"] = json!(true);
            }
            if rd["state"].is_string() {
                q["state"] = rd["state"].clone();
                w["params"]["requestState"] = rd["state"].clone();
            }
            let mut rep = self.ver.lib.call(&q);
            if let Some(e) = rep["ok"]["enc"].as_str() {
                rep["ok"]["enc"] = json!(format!("{{\"params\":{e}}}"));
            }
            if self.expect("shared parameters", &rep, &w).is_none() {
                return;
            }
        }
        let got: Value = serde_json::from_str(&enc).unwrap_or(Value::Null);
        self.w.bump("retries_built");
        self.put(x, enc, got);
    }
    /// Answers offered to a request that cannot take any must be refused.
    fn misuse(&mut self, key: &str) {
        let mut r = self.w.choice(&format!("mis:{key}"));
        let pool: Vec<&&str> = self.ver.reqs("c").iter().filter(|t| !OPS.iter().any(|o| o.0 == **t)).collect();
        let ty = **r.pick(&pool);
        let g = gen_for(self.ver, &mut r);
        let f = self.ver.request(&g, &mut r, ty, &json!(1));
        let rep = self.ver.lib.call(&json!({"op": "flow", "what": "retry", "text": f.to_string(), "dr": 0, "answers": [], "route": r.below(4), "id": 2, "state": "s"}));
        self.w.bump("misplaced_answers");
        if rep.get("err").is_none() || rep["err"]["code"] != json!(-32602) {
            self.bad(&format!("misplaced|{ty}"), format!("answers attached to {f} were not refused as invalid: {rep}"));
        }
    }
}

fn st_of(v: &Value) -> String {
    v.as_str().unwrap_or("").to_string()
}
