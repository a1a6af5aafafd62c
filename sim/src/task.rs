//! Long-running tasks: a requester asks for task execution, the receiver keeps the task and works through its states; the
//! requester polls, lists, is notified, cancels, loses messages and restarts, and fetches the final payload, once.
use crate::cat::*;
use crate::check::*;
use crate::jsonx::*;
use crate::net::*;
use crate::rng::*;
use crate::session::scramble;
use crate::world::*;
use crate::{Ctx, Outcome};
use serde_json::{json, Value};
use std::collections::HashMap;

pub enum Ev {
    Start(usize),
    /// message `m` arrives at the requester (of its operation) or the receiver
    Arrive { to_receiver: bool, m: usize, text: String },
    Poll { op: usize, epoch: u64 },
    Again { op: usize, m: usize, n: u64, epoch: u64 },
    Step { task: usize, k: usize },
    CancelNow { op: usize },
    Down(usize, u64),
    Up(usize),
}

const RELATED: &str = "io.modelcontextprotocol/related-task";

pub fn plan(ctx: &Ctx, seed: u64, prop: &str) -> Value {
    let mut rr = Rng::new(hash_str(seed, prop));
    let r = &mut rr;
    let v = &ctx.vers[3];
    let mut g = gen_for(v, r);
    g.depth = g.depth.min(4);
    let mut used: [Vec<Value>; 2] = [vec![], vec![]];
    let mut ops = vec![];
    for u in 0..r.scale(1, 5, 0.003, 40) {
        let e = if r.p(0.55) { 0 } else { 1 };
        let from = ["c", "s"][e];
        let ty = if e == 0 { "CallToolRequest" } else { *r.pick(&["ElicitRequest", "CreateMessageRequest"]) };
        let id = fresh_id(r, &mut used[e]);
        let mut f = v.request(&g, r, ty, &id);
        let aug = r.p(0.85);
        let p = f["params"].as_object_mut().unwrap();
        p.remove("task");
        if aug {
            p.insert("task".into(), g.named(r, "TaskMetadata"));
        }
        let res = v.result_of(ty);
        let mut steps = vec![];
        for _ in 0..r.scale(0, 3, 0.006, 25) {
            steps.push(json!({"dt": r.below(500), "status": *r.pick(&["working", "input_required", "working"]), "body": g.named(r, "Task"), "notify": r.p(0.5), "side": r.p(0.4)}));
        }
        let end = *r.pick(&["completed", "completed", "completed", "failed", "cancelled"]);
        steps.push(json!({"dt": r.below(800), "status": end, "body": g.named(r, "Task"), "notify": r.p(0.5), "side": false}));
        let fin = if end == "completed" && r.p(0.9) || end == "failed" && ty == "CallToolRequest" && r.p(0.6) {
            json!({"kind": "response", "ty": res, "frame": frame_response(&id, v.result(&g, r, res))})
        } else {
            json!({"kind": "error", "ty": "error", "frame": frame_error(&id, crate::gen::error_obj(&g, r))})
        };
        let tid = match r.below(5) {
            0 => g.string(r),
            1 => r.pick(&["", "0", "1", "é", "null", "{}", "a/b", "\"", "task", "\n"]).to_string(),
            2 => format!("{u}"),
            _ => format!("786512e2-9e0d-44bd-8f29-{:012x}", r.below(1000)),
        };
        ops.push(json!({"u": u, "t": r.below(1200), "from": from, "kind": "request", "ty": ty, "frame": f, "aug": aug, "style": r.below(4), "built": r.p(0.5) && ty != "CreateMessageRequest", "route": r.below(2),
                        "tid": tid, "first": {"body": g.named(r, "Task"), "meta": if r.p(0.3) { g.map(r, 2) } else { Value::Null }}, "steps": steps, "final": fin, "relate": r.below(3), "prior": if r.p(0.3) { json!(g.string(r)) } else { Value::Null },
                        "cancel": if r.p(0.2) { json!(r.below(2500)) } else { Value::Null }, "poll": *r.pick(&[50u64, 150, 400]), "list": *r.pick(&[0.0, 0.2, 0.5]), "early": r.p(0.15)}));
    }
    let mut events = vec![];
    for _ in 0..r.below(4) {
        events.push(json!({"e": "crash", "n": r.below(2), "t": r.below(3500), "down": 1 + r.below(500)}));
    }
    json!({"scn": "task", "prop": prop, "seed": seed, "vers": [3], "net_seed": r.next() >> 8, "prof": Profile::draw(r, 0.0), "rto": *r.pick(&[200u64, 500]), "heal": 4500, "ops": ops, "events": events, "faults": null})
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum What {
    Create,
    Get,
    List,
    Fetch,
    Cancel,
    /// from the receiver: a status notification or another message about the task
    Notify,
}
struct Msg {
    op: usize,
    what: What,
    from: &'static str,
    kind: &'static str,
    ty: String,
    frame: Value,
    text: String,
    name: String,
    task: Option<usize>,
    /// the request this message answers
    re: Option<usize>,
}
/// The receiver's record of a task, which survives its restarts.
struct Task {
    op: usize,
    id: String,
    state: Value,
    status: String,
    /// requests for the payload that came before it was there
    held: Vec<usize>,
}

struct T<'a> {
    ver: &'a Ver,
    plan: &'a Value,
    w: World<Ev>,
    ops: Vec<Value>,
    up: [bool; 2],
    epoch: [u64; 2],
    msgs: Vec<Msg>,
    tasks: Vec<Task>,
    /// receiver: creation requests seen, by requester side and id
    created: HashMap<(usize, String), usize>,
    /// requester memory: open requests, by side and id
    pending: [HashMap<String, usize>; 2],
    /// requester, durable: the task it was told of
    task_of: Vec<Option<String>>,
    /// requester, in memory: knows the task to be over
    over: Vec<bool>,
    started: Vec<bool>,
    done: Vec<u64>,
    ids: u64,
    clock: u64,
}

pub fn run(ctx: &Ctx, plan: &Value, trace: bool) -> Outcome {
    let ops = plan["ops"].as_array().unwrap().clone();
    let k = ops.len();
    let mut t = T {
        ver: &ctx.vers[plan["vers"][0].as_u64().unwrap() as usize],
        plan,
        w: World::new(plan, trace),
        ops,
        up: [true; 2],
        epoch: [0; 2],
        msgs: vec![],
        tasks: vec![],
        created: HashMap::new(),
        pending: [HashMap::new(), HashMap::new()],
        task_of: vec![None; k],
        over: vec![false; k],
        started: vec![false; k],
        done: vec![0; k],
        ids: 0,
        clock: 0,
    };
    for i in 0..k {
        let at = un(&t.ops[i], "t");
        t.w.at(at, Ev::Start(i));
        if let Some(c) = t.ops[i]["cancel"].as_u64() {
            t.w.at(c, Ev::CancelNow { op: i });
        }
    }
    for e in plan["events"].as_array().unwrap() {
        t.w.at(un(e, "t"), Ev::Down((un(e, "n") as usize).min(1), un(e, "down")));
    }
    t.statuses();
    t.go();
    for i in 0..k {
        if t.started[i] && t.done[i] != 1 && t.w.viols.is_empty() {
            let x = format!("{} {} was concluded {} times", st(&t.ops[i], "ty"), t.ops[i]["frame"]["id"], t.done[i]);
            t.bad(if t.done[i] == 0 { "never concluded" } else { "concluded again" }, x);
        }
    }
    for i in 0..k {
        let s = shape(&t.ops[i], hash_str(3, "task"));
        t.w.shapes.insert(s);
    }
    Outcome::of(t.w)
}

fn final_status(s: &str) -> bool {
    matches!(s, "completed" | "failed" | "cancelled")
}
fn side(s: &str) -> usize {
    if s == "c" { 0 } else { 1 }
}

impl T<'_> {
    fn bad(&mut self, what: &str, text: String) {
        let x = v("task", self.ver, what, text);
        self.w.viols.push(x);
    }
    fn u(&self, op: usize) -> u64 {
        un(&self.ops[op], "u")
    }
    fn req_side(&self, op: usize) -> usize {
        side(st(&self.ops[op], "from"))
    }
    fn call(&mut self, q: Value) -> Value {
        self.w.bump("task_helper_calls");
        self.ver.lib.call(&q)
    }
    /// The five states by themselves.
    fn statuses(&mut self) {
        for s in ["working", "input_required", "completed", "failed", "cancelled"] {
            let rep = self.call(json!({"op": "task", "what": "terminal", "status": s}));
            if rep["ok"]["terminal"] != json!(final_status(s)) || rep["ok"]["display"] != s {
                self.bad(&format!("status {s}"), format!("the library says of state {s}: {rep}"));
            }
        }
    }
    fn go(&mut self) {
        while let Some(e) = self.w.pop() {
            if self.w.steps > 12_000 || self.w.viols.len() > 40 {
                return;
            }
            match e {
                Ev::Start(op) => {
                    self.started[op] = true;
                    if self.up[self.req_side(op)] {
                        self.create(op);
                    }
                }
                Ev::Arrive { to_receiver, m, text } => {
                    let q = self.req_side(self.msgs[m].op);
                    let node = if to_receiver { 1 - q } else { q };
                    if !self.up[node] {
                        self.w.bump("lost_to_crashed_node");
                    } else if to_receiver {
                        self.at_receiver(m, text);
                    } else {
                        self.at_requester(m, text);
                    }
                }
                Ev::Poll { op, epoch } => {
                    let q = self.req_side(op);
                    if self.up[q] && self.epoch[q] == epoch && self.done[op] == 0 && self.w.now < self.w.heal + 25_000 {
                        self.poll(op);
                    }
                }
                Ev::Again { op, m, n, epoch } => {
                    let q = self.req_side(op);
                    let id = id_key(&self.msgs[m].frame["id"]);
                    if self.up[q] && self.epoch[q] == epoch && self.pending[q].get(&id) == Some(&m) && self.w.now < self.w.heal + 25_000 {
                        self.w.bump("retransmission");
                        self.transmit(m, n + 1);
                    }
                }
                Ev::Step { task, k } => self.step(task, k),
                Ev::CancelNow { op } => {
                    let q = self.req_side(op);
                    if self.up[q] && self.done[op] == 0 && self.task_of[op].is_some() {
                        self.w.bump("cancel_requests");
                        self.ask(op, What::Cancel);
                    }
                }
                Ev::Down(n, down) => {
                    if self.up[n] {
                        self.w.bump("crash");
                        self.w.note(&format!("crash {n}"), "");
                        self.up[n] = false;
                        self.epoch[n] += 1;
                        self.pending[n].clear();
                        for op in 0..self.ops.len() {
                            if self.req_side(op) == n {
                                self.over[op] = false;
                            } else {
                                for t in &mut self.tasks {
                                    if t.op == op {
                                        t.held.clear();
                                    }
                                }
                            }
                        }
                        self.w.after(down, Ev::Up(n));
                    }
                }
                Ev::Up(n) => {
                    self.w.bump("restart");
                    self.up[n] = true;
                    for op in 0..self.ops.len() {
                        if self.req_side(op) == n && self.started[op] && self.done[op] == 0 {
                            if self.task_of[op].is_some() {
                                self.poll(op);
                            } else {
                                self.create(op);
                            }
                        }
                    }
                }
            }
        }
    }
    fn fresh(&mut self, op: usize) -> Value {
        self.ids += 1;
        if self.ops[op]["frame"]["id"].is_string() { json!(format!("t{}", self.ids)) } else { json!(2_000_000 + self.ids) }
    }
    #[allow(clippy::too_many_arguments)]
    fn put(&mut self, op: usize, what: What, from: &'static str, kind: &'static str, ty: &str, frame: Value, task: Option<usize>, re: Option<usize>) -> usize {
        let name = format!("{}:{what:?}:{kind}", self.u(op));
        let name = self.w.nth(&name);
        let mut r = self.w.choice(&format!("text:{name}"));
        let text = scramble(&frame, &mut r, un(&self.ops[op], "style") as usize);
        self.msgs.push(Msg { op, what, from, kind, ty: ty.into(), frame, text, name, task, re });
        self.msgs.len() - 1
    }
    fn transmit(&mut self, m: usize, n: u64) {
        let (op, name, text) = (self.msgs[m].op, self.msgs[m].name.clone(), self.msgs[m].text.clone());
        let to_receiver = side(self.msgs[m].from) == self.req_side(op);
        post(&mut self.w, &format!("{name}~{n}"), &text, |t, _| Ev::Arrive { to_receiver, m, text: t });
        if to_receiver {
            let epoch = self.epoch[self.req_side(op)];
            self.w.after(un(self.plan, "rto").max(1) * (n + 1).min(4), Ev::Again { op, m, n, epoch });
        }
    }
    fn from_of(&self, op: usize, requester: bool) -> &'static str {
        ["c", "s"][if requester { self.req_side(op) } else { 1 - self.req_side(op) }]
    }
    // ---- requester ----
    fn create(&mut self, op: usize) {
        let o = self.ops[op].clone();
        let mut f = o["frame"].clone();
        let q = self.req_side(op);
        if self.epoch[q] > 0 {
            f["id"] = self.fresh(op);
        }
        let from = self.from_of(op, true);
        let m = self.put(op, What::Create, from, "request", st(&o, "ty"), f.clone(), None, None);
        if o["built"] == json!(true) && o["aug"] == json!(true) {
            let mut p = f["params"].clone();
            let task = p.as_object_mut().unwrap().remove("task").unwrap_or(json!({}));
            let ty = if st(&o, "ty") == "CallToolRequest" { "call" } else { "elicit" };
            let rep = self.call(json!({"op": "task", "what": "with_task", "ty": ty, "params": p, "task": task, "id": f["id"], "route": un(&o, "route")}));
            let Some(enc) = rep["ok"]["enc"].as_str().map(str::to_string) else {
                self.bad("with_task refused", format!("asking for task execution of {f} failed: {rep}"));
                return;
            };
            let got: Value = serde_json::from_str(&enc).unwrap_or(Value::Null);
            if let Some((p, x)) = diff(&f, &got) {
                self.bad(&format!("with_task|{}", generic_path(&p)), format!("asking for task execution changed the request: {p} {x}; wanted {f}, got {enc}"));
            }
            if rep["ok"]["aug"] != json!(true) {
                self.bad("with_task not augmented", format!("a request that asks for task execution does not count as doing so: {enc}"));
            }
            self.msgs[m].text = enc;
        }
        self.pending[q].insert(id_key(&f["id"]), m);
        self.transmit(m, 0);
    }
    fn ask(&mut self, op: usize, what: What) {
        let q = self.req_side(op);
        // one open request of each sort
        if self.pending[q].values().any(|&m| self.msgs[m].op == op && self.msgs[m].what == what) {
            return;
        }
        let id = self.fresh(op);
        let tid = self.task_of[op].clone().unwrap_or_default();
        let (ty, params) = match what {
            What::Get => ("GetTaskRequest", Some(json!({"taskId": tid}))),
            What::Fetch => ("GetTaskPayloadRequest", Some(json!({"taskId": tid}))),
            What::Cancel => ("CancelTaskRequest", Some(json!({"taskId": tid}))),
            _ => ("ListTasksRequest", if self.w.choice(&format!("cur:{}", id)).p(0.5) { Some(json!({"cursor": "c1"})) } else { None }),
        };
        let f = frame_request(&id, self.ver.method_of(ty), params);
        let from = self.from_of(op, true);
        let m = self.put(op, what, from, "request", ty, f.clone(), None, None);
        self.pending[q].insert(id_key(&id), m);
        self.transmit(m, 0);
    }
    fn poll(&mut self, op: usize) {
        let q = self.req_side(op);
        let key = format!("poll{}", self.u(op));
        let key = self.w.nth(&key);
        let mut r = self.w.choice(&key);
        if self.over[op] {
            self.ask(op, What::Fetch);
        } else {
            self.w.bump("polls");
            if self.ops[op]["early"] == json!(true) && r.p(0.5) {
                self.w.bump("early_fetch");
                self.ask(op, What::Fetch);
            }
            let what = if r.p(self.ops[op]["list"].as_f64().unwrap_or(0.0)) { What::List } else { What::Get };
            self.ask(op, what);
        }
        let epoch = self.epoch[q];
        let d = un(&self.ops[op], "poll").max(10);
        self.w.after(d, Ev::Poll { op, epoch });
    }
    /// The requester reads a state off a record the library gave it.
    fn look(&mut self, op: usize, what: &str, body: &Value, at: usize) {
        let q = if what == "GetTaskResult" { "get_terminal" } else { "task_terminal" };
        let mut b = body.clone();
        if q == "task_terminal" {
            b.as_object_mut().unwrap().remove("_meta");
        }
        let rep = self.call(json!({"op": "task", "what": q, "task": b}));
        let Some(term) = rep["ok"]["terminal"].as_bool() else {
            self.bad("record refused", format!("the task record {b} cannot be read: {rep}"));
            return;
        };
        if let Some((p, x)) = diff(&b, &rep["ok"]["body"]) {
            self.bad(&format!("record|{}", generic_path(&p)), format!("the task record changed: {p} {x} in {b}"));
        }
        if term != final_status(st(body, "status")) {
            self.bad(&format!("finality of {}", st(body, "status")), format!("state {} is reported as {}", st(body, "status"), if term { "final" } else { "not final" }));
        }
        if term && Some(st(body, "taskId")) == self.task_of[op].as_deref() && !self.over[op] {
            if !final_status(&self.tasks[at].status) {
                self.bad("final too early", format!("the requester takes task {} for final while it is {}", body["taskId"], self.tasks[at].status));
            }
            self.over[op] = true;
            self.ask(op, What::Fetch);
        }
    }
    fn at_requester(&mut self, m: usize, text: String) {
        let (op, what) = (self.msgs[m].op, self.msgs[m].what);
        let q = self.req_side(op);
        let (from, kind, ty, frame, task) = (self.msgs[m].from, self.msgs[m].kind, self.msgs[m].ty.clone(), self.msgs[m].frame.clone(), self.msgs[m].task);
        let e = Exp { side: from, kind, ty: &ty, frame: &frame };
        let key = self.w.nth(&format!("h{}", self.msgs[m].name));
        let Some((told, enc)) = hear(&mut self.w, self.ver, &e, &text, &key) else { return };
        let got: Value = serde_json::from_str(&enc).unwrap_or(Value::Null);
        if what == What::Notify {
            let tid = task.map(|t| self.tasks[t].id.clone()).unwrap_or_default();
            if ty == "TaskStatusNotification" {
                self.w.bump("status_notifications");
                let b = got["params"].clone();
                if self.done[op] == 0 && self.task_of[op].as_deref() == Some(&tid) {
                    self.look(op, "Task", &b, task.unwrap());
                }
            } else {
                self.related(&got["params"]["_meta"], &tid);
            }
            return;
        }
        let id = id_key(&told["id"]);
        let Some(rm) = self.pending[q].remove(&id) else {
            self.w.bump("late_duplicate_reply_ignored");
            return;
        };
        if Some(rm) != self.msgs[m].re {
            self.bad("misdelivered", format!("the reply to {} was matched to another request", frame["id"]));
            return;
        }
        let is_err = st(&told, "kind") == "error";
        match what {
            What::Create => {
                if let Some(t) = task {
                    let b = got["result"]["task"].clone();
                    let tid = st(&b, "taskId").to_string();
                    if tid != self.tasks[t].id {
                        self.bad("task id", format!("task {:?} is known to the requester as {tid:?}", self.tasks[t].id));
                    }
                    self.task_of[op] = Some(tid);
                    self.w.bump("tasks_followed");
                    self.look(op, "Task", &b, t);
                    self.poll(op);
                } else {
                    self.conclude(op);
                }
            }
            What::Get if !is_err => {
                let b = got["result"].clone();
                self.look(op, "GetTaskResult", &b, task.unwrap());
            }
            What::List if !is_err => {
                for b in got["result"]["tasks"].as_array().cloned().unwrap_or_default() {
                    if let Some(t) = self.tasks.iter().position(|t| Some(t.id.as_str()) == b["taskId"].as_str()) {
                        if self.tasks[t].op == op {
                            self.look(op, "Task", &b, t);
                        }
                    }
                }
            }
            What::Cancel => {
                if !is_err {
                    let mut b = got["result"].clone();
                    b.as_object_mut().unwrap().remove("_meta");
                    self.look(op, "Task", &b, task.unwrap());
                }
            }
            What::Fetch => {
                let t = task.unwrap();
                if !final_status(&self.tasks[t].status) {
                    self.bad("payload too early", format!("the payload of {:?} arrived while it is {}", self.tasks[t].id, self.tasks[t].status));
                }
                if !is_err {
                    let tid = self.tasks[t].id.clone();
                    self.related(&got["result"]["_meta"], &tid);
                    if q == 1 {
                        self.payload_of_client(op, &got["result"]);
                    }
                }
                self.conclude(op);
            }
            _ => {}
        }
    }
    fn related(&mut self, meta: &Value, tid: &str) {
        let rep = self.call(json!({"op": "task", "what": "related_of", "meta": meta}));
        if rep["ok"]["id"] != json!(tid) {
            self.bad("related id", format!("metadata {meta} belongs to task {tid:?}, the library says {}", rep["ok"]["id"]));
        }
    }
    /// What a client delivered for a finished task is the result of the operation that was asked for.
    fn payload_of_client(&mut self, op: usize, body: &Value) {
        let rep = self.call(json!({"op": "task", "what": "payload_client", "payload": body}));
        let want = self.ver.result_of(st(&self.ops[op], "ty"));
        if rep["ok"]["ty"] != want {
            self.bad(&format!("payload|{want}"), format!("the payload {body} of a {} is taken for {rep}", st(&self.ops[op], "ty")));
            return;
        }
        let got: Value = serde_json::from_str(st(&rep["ok"], "enc")).unwrap_or(Value::Null);
        if let Some((p, x)) = diff(body, &got) {
            self.bad(&format!("payload|{want}|{}", generic_path(&p)), format!("the payload changed: {p} {x} in {body}"));
        }
    }
    fn conclude(&mut self, op: usize) {
        self.done[op] += 1;
        self.w.bump("operations_concluded");
        if self.done[op] > 1 {
            // a payload asked for twice (early and on completion) is one conclusion
            let aug = self.ops[op]["aug"] == json!(true);
            if aug {
                self.done[op] = 1;
                self.w.bump("second_payload_ignored");
            } else {
                self.bad("concluded again", format!("{} {}", st(&self.ops[op], "ty"), self.ops[op]["frame"]["id"]));
            }
        }
    }
    // ---- receiver ----
    fn record(&mut self, t: usize, body: &Value, status: &str) {
        self.clock += 1;
        let mut b = body.clone();
        b["taskId"] = json!(self.tasks[t].id);
        b["status"] = json!(status);
        b["lastUpdatedAt"] = json!(format!("2025-11-25T00:00:{:02}.{:03}Z", self.clock / 1000 % 60, self.clock % 1000));
        self.tasks[t].state = b;
        self.tasks[t].status = status.into();
    }
    fn at_receiver(&mut self, m: usize, text: String) {
        let (op, what) = (self.msgs[m].op, self.msgs[m].what);
        let q = self.req_side(op);
        let (from, kind, ty, frame) = (self.msgs[m].from, self.msgs[m].kind, self.msgs[m].ty.clone(), self.msgs[m].frame.clone());
        let e = Exp { side: from, kind, ty: &ty, frame: &frame };
        let key = self.w.nth(&format!("h{}", self.msgs[m].name));
        let Some((told, enc)) = hear(&mut self.w, self.ver, &e, &text, &key) else { return };
        let got: Value = serde_json::from_str(&enc).unwrap_or(Value::Null);
        let id = frame["id"].clone();
        if what == What::Create {
            // the receiver goes by what the library tells it
            let aug = told["acc"]["augmented"] == json!(true);
            if aug != (self.ops[op]["aug"] == json!(true)) {
                self.bad("augmentation", format!("the request {frame} is taken to {}ask for task execution", if aug { "" } else { "not " }));
                return;
            }
            if !aug {
                self.finish(m, None, &id);
                return;
            }
            let k = (q, id_key(&told["id"]));
            let t = match self.created.get(&k) {
                Some(t) => {
                    self.w.bump("duplicate_suppressed");
                    *t
                }
                None => {
                    let n = self.tasks.iter().filter(|t| t.op == op).count();
                    let base = st(&self.ops[op], "tid").to_string();
                    let mut tid = if n == 0 { base } else { format!("{base}-{n}") };
                    while self.tasks.iter().any(|t| t.id == tid) {
                        tid.push('\'');
                    }
                    self.tasks.push(Task { op, id: tid, state: Value::Null, status: String::new(), held: vec![] });
                    let t = self.tasks.len() - 1;
                    let b = self.ops[op]["first"]["body"].clone();
                    self.record(t, &b, "working");
                    self.created.insert(k, t);
                    self.w.bump("tasks_created");
                    let d = un(&self.ops[op]["steps"][0], "dt") + 1;
                    self.w.after(d, Ev::Step { task: t, k: 0 });
                    t
                }
            };
            let mut res = json!({"task": self.tasks[t].state});
            if self.ops[op]["first"]["meta"].is_object() {
                res["_meta"] = self.ops[op]["first"]["meta"].clone();
            }
            self.reply(m, "response", "CreateTaskResult", frame_response(&id, res), Some(t));
            return;
        }
        if what == What::List {
            let l: Vec<Value> = self.tasks.iter().filter(|t| self.req_side(t.op) == q).map(|t| t.state.clone()).collect();
            let mut res = json!({"tasks": l});
            if got["params"]["cursor"] == "c1" {
                res["nextCursor"] = json!("c2");
            }
            self.reply(m, "response", "ListTasksResult", frame_response(&id, res), None);
            return;
        }
        let tid = st(&got["params"], "taskId").to_string();
        let Some(t) = self.tasks.iter().position(|t| t.id == tid) else {
            self.bad("unknown task", format!("the receiver is asked for task {tid:?}, which it never had"));
            return;
        };
        match what {
            What::Get => {
                let b = self.full(t);
                self.reply(m, "response", "GetTaskResult", frame_response(&id, b), Some(t));
            }
            What::Cancel => {
                if final_status(&self.tasks[t].status) {
                    self.w.bump("cancel_came_too_late");
                    self.reply(m, "error", "error", frame_error(&id, json!({"code": -32602, "message": "Cannot cancel task: already in terminal status"})), Some(t));
                } else {
                    self.w.bump("task_cancelled");
                    let b = self.tasks[t].state.clone();
                    self.record(t, &b, "cancelled");
                    self.release(t);
                    let b = self.full(t);
                    self.reply(m, "response", "CancelTaskResult", frame_response(&id, b), Some(t));
                }
            }
            _ => {
                if final_status(&self.tasks[t].status) {
                    self.finish(m, Some(t), &id);
                } else {
                    self.w.bump("payload_request_held");
                    self.tasks[t].held.push(m);
                }
            }
        }
    }
    /// A record as a reply of its own: the time to live must be named, as null if there is none.
    fn full(&self, t: usize) -> Value {
        let mut b = self.tasks[t].state.clone();
        if b.get("ttl").is_none() {
            b["ttl"] = Value::Null;
        }
        b
    }
    fn reply(&mut self, re: usize, kind: &'static str, ty: &str, frame: Value, task: Option<usize>) {
        let (op, what) = (self.msgs[re].op, self.msgs[re].what);
        let from = self.from_of(op, false);
        let m = self.put(op, what, from, kind, ty, frame, task, Some(re));
        self.transmit(m, 0);
    }
    /// The final answer: the payload, tied to its task.
    fn finish(&mut self, re: usize, task: Option<usize>, id: &Value) {
        let op = self.msgs[re].op;
        let f = self.ops[op]["final"].clone();
        let cancelled = task.is_some_and(|t| self.tasks[t].status == "cancelled" && st(self.ops[op]["steps"].as_array().and_then(|s| s.last()).unwrap_or(&Value::Null), "status") != "cancelled");
        let mut frame = f["frame"].clone();
        frame["id"] = id.clone();
        if st(&f, "kind") == "error" || cancelled {
            if cancelled && st(&f, "kind") != "error" {
                frame = frame_error(id, json!({"code": -32000, "message": "task was cancelled"}));
            }
            self.reply(re, "error", "error", frame, task);
            return;
        }
        if let Some(t) = task {
            let tid = self.tasks[t].id.clone();
            let before = frame["result"].clone();
            if !frame["result"]["_meta"].is_object() {
                frame["result"]["_meta"] = json!({});
            }
            frame["result"]["_meta"][RELATED] = json!({"taskId": tid});
            let route = un(&self.ops[op], "relate");
            if route < 2 {
                let rep = self.call(json!({"op": "task", "what": "relate", "payload": before, "task_id": tid, "route": route, "prior": self.ops[op]["prior"]}));
                let got: Value = serde_json::from_str(st(&rep["ok"], "enc")).unwrap_or(Value::Null);
                if let Some((p, x)) = diff(&frame["result"], &got) {
                    self.bad(&format!("relate|{}", generic_path(&p)), format!("tying {before} to task {tid:?}: {p} {x}; got {rep}"));
                    return;
                }
                for k in ["id", "id2"] {
                    if rep["ok"][k] != json!(tid) {
                        self.bad("related id", format!("a payload tied to {tid:?} is reported as belonging to {}", rep["ok"][k]));
                    }
                }
            }
        }
        self.w.bump("payloads_sent");
        let ty = st(&f, "ty").to_string();
        self.reply(re, "response", &ty, frame, task);
    }
    fn release(&mut self, t: usize) {
        for m in std::mem::take(&mut self.tasks[t].held) {
            let id = self.msgs[m].frame["id"].clone();
            self.finish(m, Some(t), &id);
        }
    }
    /// The receiver's work moves on. It goes on while it is down, too: the work is not in its process.
    fn step(&mut self, t: usize, k: usize) {
        if final_status(&self.tasks[t].status) {
            return;
        }
        let op = self.tasks[t].op;
        let steps = self.ops[op]["steps"].as_array().cloned().unwrap_or_default();
        let Some(s) = steps.get(k) else {
            // (a shrunk plan may have lost its end)
            let b = self.tasks[t].state.clone();
            self.record(t, &b, "completed");
            self.release(t);
            return;
        };
        let status = st(s, "status").to_string();
        self.record(t, &s["body"], &status);
        self.w.note(&format!("task {t} {status}"), "");
        self.w.bump("state_changes");
        if self.up[1 - self.req_side(op)] {
            let from = self.from_of(op, false);
            if s["notify"] == json!(true) {
                let b = self.tasks[t].state.clone();
                let f = frame_notification(self.ver.method_of("TaskStatusNotification"), Some(b));
                let m = self.put(op, What::Notify, from, "notification", "TaskStatusNotification", f, Some(t), None);
                self.transmit(m, 0);
            }
            if s["side"] == json!(true) {
                // another message about the task
                let mut r = self.w.choice(&format!("side:{}:{k}", self.u(op)));
                let g = gen_for(self.ver, &mut r);
                let ty = *r.pick(if from == "s" { &["ElicitRequest", "CreateMessageRequest", "ProgressNotification"][..] } else { &["ProgressNotification", "PingRequest"][..] });
                let mut body = self.ver.body(&g, &mut r, ty).unwrap_or(json!({}));
                if !body["_meta"].is_object() {
                    body["_meta"] = json!({});
                }
                body["_meta"][RELATED] = json!({"taskId": self.tasks[t].id});
                let id = self.fresh(op);
                let (kind, f) = if ty.ends_with("Request") { ("request", frame_request(&id, self.ver.method_of(ty), Some(body))) } else { ("notification", frame_notification(self.ver.method_of(ty), Some(body))) };
                let m = self.put(op, What::Notify, from, kind, ty, f, Some(t), None);
                self.w.bump("messages_about_a_task");
                self.transmit(m, 0);
            }
        }
        if final_status(&status) {
            self.release(t);
        } else {
            let d = steps.get(k + 1).map_or(50, |x| un(x, "dt") + 1);
            self.w.after(d, Ev::Step { task: t, k: k + 1 });
        }
    }
}
