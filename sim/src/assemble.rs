//! Messages put together from parts: a peer builds every part of a message with the library (constructors, conversions,
//! helpers) over many steps, keeps finished parts on its disk, crashes and goes on from there, and sends the assembled message
//! over faulty links; the other side reads it and takes it apart the same way.
use crate::cat::*;
use crate::check::*;
use crate::jsonx::*;
use crate::net::*;
use crate::rng::*;
use crate::schema::*;
use crate::session::scramble;
use crate::world::*;
use crate::{Ctx, Outcome};
use serde_json::{json, Value};

pub enum Ev {
    Begin { op: usize },
    /// the builder of `op` at node makes its next part
    Make { op: usize, life: u64 },
    Send { op: usize, tries: u64 },
    Arrive { op: usize, text: String },
    Ack { op: usize },
    Down(usize, u64),
    Up(usize),
}

/// One part of a message: where it is, its type, and for a union the only alternative that fits.
#[derive(Clone, Debug)]
pub struct Part {
    pub path: Vec<String>,
    pub ty: String,
    pub alt: Option<String>,
}

pub fn slot<'a>(v: &'a mut Value, path: &[String]) -> Option<&'a mut Value> {
    let mut x = v;
    for k in path {
        x = match x {
            Value::Object(m) => m.get_mut(k)?,
            Value::Array(a) => a.get_mut(k.parse::<usize>().ok()?)?,
            _ => return None,
        };
    }
    Some(x)
}

/// Every named part of a value of a named type, inner parts first.
pub fn parts(sch: &Schemas, ty: &str, v: &Value, path: &mut Vec<String>, out: &mut Vec<Part>) {
    let s = sch.get(ty);
    let alt = walk(sch, s, v, path, out);
    out.push(Part { path: path.clone(), ty: canonical(ty).to_string(), alt });
}
fn walk(sch: &Schemas, s: &Value, v: &Value, path: &mut Vec<String>, out: &mut Vec<Part>) -> Option<String> {
    if let Some(r) = s.get("$ref").and_then(Value::as_str) {
        parts(sch, r.rsplit('/').next().unwrap(), v, path, out);
        return Some(canonical(r.rsplit('/').next().unwrap()).to_string());
    }
    if let Some(a) = s.get("anyOf").and_then(Value::as_array) {
        let fit: Vec<&Value> = a.iter().filter(|x| sch.ok(x, v, Mode::Closed)).collect();
        if fit.len() == 1 {
            return walk(sch, fit[0], v, path, out);
        }
        return None;
    }
    let f = if s.get("allOf").is_some() { sch.flat(s) } else { s.clone() };
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                let sub = f["properties"].get(k).or_else(|| f.get("additionalProperties").filter(|a| a.is_object()));
                if let Some(sub) = sub {
                    path.push(k.clone());
                    walk(sch, sub, x, path, out);
                    path.pop();
                }
            }
        }
        Value::Array(a) => {
            if let Some(it) = f.get("items") {
                for (i, x) in a.iter().enumerate() {
                    path.push(i.to_string());
                    walk(sch, it, x, path, out);
                    path.pop();
                }
            }
        }
        _ => {}
    }
    None
}

/// Does the type describe a message without `jsonrpc` and `id`?
fn bare(ver: &Ver, ty: &str) -> bool {
    ver.sch.has(ty) && ver.sch.get(ty)["properties"].get("jsonrpc").is_none() && ver.sch.get(ty)["properties"].get("method").is_some()
}

/// The parts of a message, in the order in which they are made.
fn parts_of(ver: &Ver, kind: &str, ty: &str, f: &Value) -> Vec<Part> {
    let mut out = vec![];
    let mut go = |ty: &str, at: &[&str], body: &Value| {
        if ver.sch.has(ty) {
            let mut p: Vec<String> = at.iter().map(|x| x.to_string()).collect();
            let n = p.len();
            parts(&ver.sch, ty, body, &mut p, &mut out);
            debug_assert!(p.len() == n);
        }
    };
    match kind {
        "part" if ty.starts_with('@') => out.push(Part { path: vec![], ty: ty.to_string(), alt: None }),
        "part" => go(ty, &[], f),
        "request" | "notification" if ty == "custom" => {
            if kind == "request" {
                go("RequestId", &["id"], &f["id"]);
            }
        }
        "request" | "notification" => {
            if bare(ver, ty) {
                // the type is the message without its envelope
                if kind == "request" {
                    go("RequestId", &["id"], &f["id"]);
                }
                let s = &ver.sch.get(ty)["properties"]["params"];
                if let (Some(p), Some(_)) = (f.get("params"), s.get("properties").or(s.get("$ref"))) {
                    let mut path = vec!["params".to_string()];
                    walk(&ver.sch, s, p, &mut path, &mut out);
                }
                out.push(Part { path: vec![], ty: ty.to_string(), alt: None });
            } else {
                go(ty, &[], f);
            }
        }
        "response" => {
            go("RequestId", &["id"], &f["id"]);
            if ty != "custom" {
                go(ty, &["result"], &f["result"]);
            }
        }
        _ => {
            go("RequestId", &["id"], &f["id"]);
            go("RpcError", &["error"], &f["error"]);
        }
    }
    out
}

/// The parts with helper functions of their own in some version: made more often than the others.
const HELPED: &[&str] = &[
    "CallToolResult", "CallToolResult", "CallToolResult", "ContentBlock", "CallToolResultContentItem", "PrimitiveSchemaDefinition", "PrimitiveSchemaDefinition",
    "TextResourceContents", "BlobResourceContents", "CallToolRequestParams", "ElicitResultContent", "EmbeddedResource", "RequestId",
];

/// Which helper functions can make a part of this type.
fn helpers(ver: &Ver, p: &Part, body: &Value) -> Vec<&'static str> {
    let mut h = vec![];
    let new = ver.fam != Fam::A;
    let old = ver.idx < 2;
    match p.ty.as_str() {
        "CallToolResult" => h.push("@tool"),
        "ContentBlock" => h.push("@content"),
        "TextContent" | "ImageContent" | "AudioContent" | "EmbeddedResource" | "ResourceLink" => {
            if !(old && p.ty == "ResourceLink") && !(ver.idx == 0 && p.ty == "AudioContent") {
                h.push("@content");
            }
        }
        "CallToolResultContentItem" => h.push("@content"),
        "PrimitiveSchemaDefinition" | "StringSchema" | "NumberSchema" | "BooleanSchema" | "EnumSchema" | "UntitledSingleSelectEnumSchema" | "TitledSingleSelectEnumSchema"
        | "UntitledMultiSelectEnumSchema" | "TitledMultiSelectEnumSchema" | "LegacyTitledEnumSchema" | "SingleSelectEnumSchema" | "MultiSelectEnumSchema"
            if !old => h.push("@schema"),
        "TextResourceContents" | "BlobResourceContents" if new => h.push("@contents"),
        "CallToolRequestParams" if new => h.push("@call"),
        "ElicitResultContent" | "ElicitResultContentPrimitive" if ver.fam == Fam::B => h.push("@answer"),
        "RequestId" => h.push("@id"),
        "Role" | "StringSchemaFormat" | "IconTheme" => h.push("@word"),
        _ => {}
    }
    if p.ty == "TextContent" && body.as_object().is_some_and(|m| m.len() == 2) {
        h.push("@text");
    }
    h
}

struct A<'a> {
    ver: &'a Ver,
    w: World<Ev>,
    ops: Vec<Value>,
    up: Vec<bool>,
    life: u64,
    todo: Vec<Vec<Part>>,
    /// what is on the builder's disk: how many parts are finished, and the message so far
    disk: Vec<(usize, Value)>,
    /// the same in memory
    work: Vec<Option<(usize, Value)>>,
    done: Vec<bool>,
    heard: Vec<u64>,
    acked: Vec<bool>,
    rto: u64,
}

/// Constants that the specification states in words only.
fn settle(v: &Ver, ty: &str, f: &mut Value) {
    if v.fam == Fam::B {
        match ty {
            "UrlElicitError" => f["code"] = json!(-32042),
            "UrlElicitationRequiredError" => f["error"]["code"] = json!(-32042),
            _ => {}
        }
    }
    if v.fam == Fam::C {
        let fix = |x: &mut Value| {
            if let Some(m) = x.as_object_mut().filter(|m| m.contains_key("resultType")) {
                let more = m.contains_key("inputRequests") || m.contains_key("requestState") || m.keys().all(|k| k == "_meta" || k == "resultType");
                m.insert("resultType".into(), json!(if more { "input_required" } else { "complete" }));
            }
        };
        fix(f);
        if let Some(x) = f.get_mut("result") {
            fix(x);
        }
    }
}

/// An object that is a form field schema in no version: its type is missing, strange or incomplete.
fn odd(g: &Gen, r: &mut Rng) -> Value {
    let mut m = serde_json::Map::new();
    if r.p(0.5) {
        m.insert("title".into(), json!(g.string(r)));
    }
    if r.p(0.3) {
        m.insert("description".into(), json!(g.string(r)));
    }
    match r.below(5) {
        0 => {}
        1 => {
            m.insert("type".into(), json!(r.pick(&["object", "null", "String", "strings", "int", "bool", "", "date"])));
        }
        2 => {
            m.insert("type".into(), r.pick(&[json!(5), json!(null), json!(["string"]), json!({"a": 1}), json!(true)]).clone());
        }
        3 => {
            m.insert("type".into(), json!("array"));
            if r.p(0.5) {
                m.insert("items".into(), r.pick(&[json!({"type": "string"}), json!("string"), json!([]), json!(null), json!({})]).clone());
            }
        }
        _ => {
            m.insert("type".into(), json!("object"));
            m.insert("properties".into(), json!({"a": {"type": "string"}}));
        }
    }
    Value::Object(m)
}

/// A form field given by its titled choices, the form the map conversion of 2025-06-18 takes as well.
fn choices(g: &Gen, r: &mut Rng) -> Value {
    let mut m = serde_json::Map::new();
    for k in ["title", "description"] {
        if r.p(0.5) {
            m.insert(k.into(), json!(g.string(r)));
        }
    }
    if r.p(0.3) {
        m.insert("type".into(), json!("enum"));
    }
    let n = 1 + r.below(4);
    let all = (0..n).map(|_| {
        let mut c = json!({"enum": [g.string(r)]});
        if r.p(0.7) {
            c["title"] = json!(g.string(r));
        }
        c
    });
    m.insert("oneOf".into(), Value::Array(all.collect()));
    Value::Object(m)
}

pub fn plan(ctx: &Ctx, seed: u64, prop: &str) -> Value {
    let mut rr = Rng::new(hash_str(seed, prop));
    let r = &mut rr;
    let v = &ctx.vers[r.below(6)];
    let mut used: [Vec<Value>; 2] = [vec![], vec![]];
    let mut ops = vec![];
    let names = v.sch.names();
    for u in 0..r.scale(3, 12, 0.003, 100) {
        let side = r.below(2);
        let s = ["c", "s"][side];
        let mut g = gen_for(v, r);
        g.opt = *r.pick(&[0.3, 0.6, 0.9]);
        let (kind, ty, frame) = if r.p(0.5) {
            let ty = if r.p(0.25) { *r.pick(HELPED) } else { r.pick(&names) };
            let ty = if names.iter().any(|n| *n == ty) { ty } else { r.pick(&names) }.to_string();
            let mut f = g.named(r, &ty);
            settle(v, &ty, &mut f);
            ("part", ty, f)
        } else if v.fam == Fam::B && r.p(0.06) {
            let n = r.below(6);
            let items: Vec<Value> = (0..n).map(|_| { let k = g.string(r); let h = r.below(5); json!([h, k, if h == 4 { json!(g.string(r)) } else { g.any(r, 2) }]) }).collect();
            ("part", "@meta".to_string(), json!(items))
        } else if v.idx >= 2 && r.p(0.05) {
            ("part", "@odd".to_string(), odd(&g, r))
        } else if v.idx == 2 && r.p(0.05) {
            ("part", "@choices".to_string(), choices(&g, r))
        } else if v.idx >= 2 && r.p(0.05) {
            let w = *r.pick(&["user", "assistant", "date", "date-time", "email", "uri", "User", "", "time", "dark", "light", "date_time", "DateTime", "URI", "assistant ", "tool"]);
            ("part", "@word".to_string(), if r.p(0.3) { json!(g.string(r)) } else { json!(w) })
        } else {
            let (k, t, f) = item(v, &g, r, s, &mut used[side]);
            (k, t.to_string(), f)
        };
        ops.push(json!({"u": u, "t": r.below(3000), "from": s, "kind": kind, "ty": ty, "frame": frame, "style": r.below(4), "pace": *r.pick(&[1u64, 5, 40, 150]), "keep": 1 + r.below(5)}));
    }
    let mut events = vec![];
    if r.p(0.6) {
        for _ in 0..1 + r.below(3) {
            events.push(json!({"e": "crash", "n": r.below(2), "t": r.below(3500), "down": 1 + r.below(500)}));
        }
    }
    json!({"scn": "assembly", "prop": prop, "seed": seed, "vers": [v.idx], "net_seed": r.next() >> 8, "prof": Profile::draw(r, 0.0), "rto": *r.pick(&[200u64, 500]), "heal": 4000,
           "ops": ops, "events": events, "faults": null})
}

pub fn run(ctx: &Ctx, plan: &Value, trace: bool) -> Outcome {
    let ops = plan["ops"].as_array().unwrap().clone();
    let ver = &ctx.vers[plan["vers"][0].as_u64().unwrap() as usize];
    let n = ops.len();
    let mut a = A {
        ver,
        w: World::new(plan, trace),
        todo: ops.iter().map(|o| parts_of(ver, st(o, "kind"), st(o, "ty"), &o["frame"])).collect(),
        disk: ops.iter().map(|o| (0, o["frame"].clone())).collect(),
        work: vec![None; n],
        up: vec![true; 2],
        life: 0,
        done: vec![false; n],
        heard: vec![0; n],
        acked: vec![false; n],
        rto: un(plan, "rto"),
        ops,
    };
    for i in 0..n {
        let t = un(&a.ops[i], "t");
        a.w.at(t, Ev::Begin { op: i });
    }
    for e in plan["events"].as_array().unwrap() {
        a.w.at(un(e, "t"), Ev::Down(un(e, "n") as usize, un(e, "down")));
    }
    while let Some(e) = a.w.pop() {
        if !a.w.viols.is_empty() || a.w.steps > 40_000 {
            break;
        }
        a.step(e);
    }
    for i in 0..n {
        if !a.acked[i] && a.w.viols.is_empty() {
            let t = format!("{} was never delivered although faults stopped", a.ops[i]["frame"]);
            a.bad("live", t);
        }
    }
    Outcome::of(a.w)
}

impl A<'_> {
    fn bad(&mut self, what: &str, text: String) {
        let x = v("part", self.ver, what, text);
        self.w.viols.push(x);
    }
    fn node(&self, op: usize) -> usize {
        if st(&self.ops[op], "from") == "c" { 0 } else { 1 }
    }
    fn step(&mut self, e: Ev) {
        match e {
            Ev::Begin { op } => {
                if self.done[op] {
                    return;
                }
                if !self.up[self.node(op)] {
                    return; // taken up again when it is back
                }
                if self.work[op].is_none() {
                    // from the disk: what was finished is read again as text
                    let (k, b) = self.disk[op].clone();
                    let b: Value = serde_json::from_str(&b.to_string()).unwrap_or(b);
                    self.work[op] = Some((k, b));
                    self.w.note(&format!("begin {op} at {k}"), "");
                    let life = self.life;
                    self.w.after(1, Ev::Make { op, life });
                }
            }
            Ev::Make { op, life } => {
                let Some((k, mut body)) = self.work[op].take() else { return };
                if life != self.life && !self.up[self.node(op)] || self.done[op] {
                    return;
                }
                if k < self.todo[op].len() {
                    let p = self.todo[op][k].clone();
                    self.make(op, k, &p, &mut body);
                    self.w.bump("parts_made");
                    let k = k + 1;
                    if k as u64 % un(&self.ops[op], "keep").max(1) == 0 {
                        self.disk[op] = (k, body.clone());
                        self.w.bump("disk_checkpoints");
                    }
                    self.work[op] = Some((k, body));
                    let d = un(&self.ops[op], "pace").max(1);
                    let life = self.life;
                    self.w.after(d, Ev::Make { op, life });
                } else {
                    self.done[op] = true;
                    self.disk[op] = (k, body);
                    let key = format!("complete {op}");
                    self.w.note(&key, "");
                    self.w.after(1, Ev::Send { op, tries: 0 });
                }
            }
            Ev::Send { op, tries } => {
                if self.acked[op] {
                    return;
                }
                if self.up[self.node(op)] {
                    if st(&self.ops[op], "kind") == "part" {
                        // a part in stock: kept, not sent; it is read from disk once more
                        let b = self.disk[op].1.clone();
                        let want = self.ops[op]["frame"].clone();
                        if let Some((p, w)) = diff(&want, &b) {
                            let t = format!("a {} assembled from its own parts: member {p} {w}; {want}", st(&self.ops[op], "ty"));
                            self.bad(&format!("{}|assembled|{}", st(&self.ops[op].clone(), "ty"), generic_path(&p)), t);
                        }
                        self.acked[op] = true;
                        return;
                    }
                    let mut r = self.w.choice(&format!("style{op}:{tries}"));
                    let style = un(&self.ops[op], "style");
                    let text = scramble(&self.disk[op].1, &mut r, style as usize);
                    let key = self.w.nth(&format!("p{op}"));
                    post(&mut self.w, &key, &text, |t, _| Ev::Arrive { op, text: t });
                }
                let d = self.rto;
                self.w.after(d, Ev::Send { op, tries: tries + 1 });
            }
            Ev::Arrive { op, text } => {
                if !self.up[1 - self.node(op)] {
                    self.w.bump("lost_to_crash");
                    return;
                }
                let o = self.ops[op].clone();
                let side = if self.node(op) == 0 { "c" } else { "s" };
                let key = format!("{op}:{}", self.heard[op]);
                self.heard[op] += 1;
                let kind = match st(&o, "kind") { "error" => "error", k => k };
                let f = o["frame"].clone();
                let exp = Exp { side, kind, ty: st(&o, "ty"), frame: &f };
                let got = hear(&mut self.w, self.ver, &exp, &text, &key);
                if self.heard[op] == 1 {
                    if let Some((_, enc)) = got {
                        // taken apart on this side
                        let mut b: Value = serde_json::from_str(&enc).unwrap_or(Value::Null);
                        for (k, p) in self.todo[op].clone().into_iter().enumerate() {
                            let mut r = self.w.choice(&format!("apart{op}:{k}"));
                            if r.p(0.4) {
                                self.make(op, 1000 + k, &p, &mut b);
                            }
                        }
                    }
                }
                let key = self.w.nth(&format!("a{op}"));
                for c in self.w.link(&key) {
                    self.w.after(c.delay, Ev::Ack { op });
                }
            }
            Ev::Ack { op } => {
                if self.up[self.node(op)] {
                    self.acked[op] = true;
                }
            }
            Ev::Down(n, d) => {
                if self.up[n] {
                    self.w.bump("crash");
                    self.up[n] = false;
                    self.life += 1;
                    for i in 0..self.ops.len() {
                        if self.node(i) == n {
                            self.work[i] = None;
                        }
                    }
                    self.w.note(&format!("down {n}"), "");
                    self.w.after(d, Ev::Up(n));
                }
            }
            Ev::Up(n) => {
                self.up[n] = true;
                self.w.note(&format!("up {n}"), "");
                for i in 0..self.ops.len() {
                    if self.node(i) == n && un(&self.ops[i], "t") <= self.w.now && !self.done[i] {
                        self.step(Ev::Begin { op: i });
                    }
                }
            }
        }
    }

    /// Make one part through the library in every way it offers; one of the results becomes the part.
    fn make(&mut self, op: usize, k: usize, p: &Part, body: &mut Value) {
        let Some(at) = slot(body, &p.path) else { return };
        let envelope = at.clone();
        let mut want = at.clone();
        if p.path.is_empty() && st(&self.ops[op], "kind") != "part" && bare(self.ver, &p.ty) {
            want = json!({"method": envelope["method"]});
            if let Some(x) = envelope.get("params") {
                want["params"] = x.clone();
            }
        }
        let mut r = self.w.choice(&format!("make{op}:{k}"));
        let how = r.below(4096) as u64;
        if p.ty.starts_with('@') {
            let ty = if p.ty == "@odd" || p.ty == "@choices" { "@schema" } else { &p.ty };
            let rep = self.ver.lib.call(&json!({"op": "part", "ty": ty, "body": want, "how": how}));
            self.w.bump("odd_parts");
            self.w.note(&format!("make {op}.{k} {}", p.ty), "");
            match p.ty.as_str() {
                "@meta" => judge_meta(self.ver, &want, &rep, &mut self.w.viols),
                "@word" => judge_word(self.ver, &want, &rep, &mut self.w.viols),
                "@choices" => {
                    let list = want["oneOf"].as_array().cloned().unwrap_or_default();
                    let mut exp = json!({"type": "string"});
                    exp["enum"] = list.iter().map(|c| c["enum"][0].clone()).collect();
                    exp["enumNames"] = list.iter().map(|c| c.get("title").unwrap_or(&c["enum"][0]).clone()).collect();
                    for k in ["title", "description"] {
                        if let Some(x) = want.get(k) {
                            exp[k] = x.clone();
                        }
                    }
                    let got = rep["enc"]["text"].as_str().and_then(|t| serde_json::from_str(t).ok()).unwrap_or(Value::Null);
                    if !same(&exp, &got) {
                        let t = format!("the choices {want} taken as a form field gave {rep}");
                        self.bad("@choices", t);
                    }
                }
                _ => {
                    if rep.get("unread").is_none() {
                        let t = format!("{want} is no schema of a form field, and parsing it gave {rep}");
                        self.bad("@odd", t);
                    }
                }
            }
            return;
        }
        let rep = self.ver.lib.call(&json!({"op": "part", "ty": p.ty, "body": want, "how": how}));
        self.w.note(&format!("make {op}.{k} {}", p.ty), "");
        let mut made: Vec<Value> = vec![];
        judge(self.ver, p, &want, &rep, "", &mut self.w.viols, &mut made);
        for h in helpers(self.ver, p, &want) {
            let arg = match h {
                "@text" => want["text"].clone(),
                _ => want.clone(),
            };
            let rep = self.ver.lib.call(&json!({"op": "part", "ty": h, "body": arg, "how": how}));
            if h == "@word" {
                judge_word(self.ver, &want, &rep, &mut self.w.viols);
                continue;
            }
            judge(self.ver, p, &want, &rep, h, &mut self.w.viols, &mut made);
        }
        if bare(self.ver, &p.ty) || p.ty == "RequestId" {
            self.generic(op, k);
        }
        if self.w.viols.is_empty() && !made.is_empty() {
            let x = made[r.below(made.len())].clone();
            if let Some(at) = slot(body, &p.path) {
                if want == envelope {
                    *at = x;
                } else {
                    at["method"] = x["method"].clone();
                    if let Some(p) = x.get("params") {
                        at["params"] = p.clone();
                    }
                }
            }
        }
    }
}

impl A<'_> {
    /// A message read as a generic request or notification and handed on as a custom one.
    fn generic(&mut self, op: usize, k: usize) {
        let f = self.ops[op]["frame"].clone();
        if k >= 1000 || self.ver.fam == Fam::A || !matches!(st(&self.ops[op], "kind"), "request" | "notification") {
            return;
        }
        let rep = self.ver.lib.call(&json!({"op": "part", "ty": "@custom", "body": f, "how": 0}));
        self.w.bump("handed_on_as_custom");
        let got: Value = rep["enc"]["text"].as_str().and_then(|t| serde_json::from_str(t).ok()).unwrap_or(Value::Null);
        let mut want = json!({"method": f["method"]});
        if let Some(p) = f.get("params") {
            want["params"] = p.clone();
        }
        if !same(&want, &got) || rep[".method"] != f["method"] {
            let t = format!("{f} handed on as a custom message: {rep}");
            self.bad("@custom", t);
        }
    }
}

fn judge(ver: &Ver, p: &Part, want: &Value, rep: &Value, helper: &str, out: &mut Vec<Viol>, made: &mut Vec<Value>) {
    let ty = &p.ty;
    let mut bad = |what: String, text: String| {
        out.push(v("part", ver, &format!("{ty}|{what}"), format!("{ty}{}: {text}; {want}", if helper.is_empty() { String::new() } else { format!(" through {helper}") })));
    };
    if let Some(x) = rep.get("panic") {
        bad(format!("{helper}panic"), format!("panic: {x}"));
        return;
    }
    if let Some(x) = rep.get("unread") {
        bad(format!("{helper}unread"), format!("a valid part is not read: {x}"));
        return;
    }
    let Some(m) = rep.as_object() else { return };
    for (k, x) in m {
        if let Some(word) = k.strip_prefix('.') {
            let got = x.as_str().unwrap_or("");
            let expect = match word {
                "type_" | "type_value" | "type_name" | "content_type" => want["type"].as_str().map(str::to_string),
                "method" | "method_value" | "method_name" => want["method"].as_str().map(str::to_string),
                "jsonrpc" => want["jsonrpc"].as_str().map(str::to_string),
                "mode" | "mode_value" | "mode_name" => want["mode"].as_str().map(str::to_string),
                "result_type" => want["resultType"].as_str().map(str::to_string),
                "display" => match want {
                    Value::String(s) => Some(s.clone()),
                    Value::Number(_) | Value::Bool(_) => Some(want.to_string()),
                    _ => None,
                },
                "variant" => p.alt.clone(),
                _ => word.strip_prefix("kind ").map(|_| ty.clone()),
            };
            if let Some(e) = expect {
                if e != got {
                    bad(format!("{helper}{word}"), format!("{word} says {got:?} instead of {e:?}"));
                }
            }
            continue;
        }
        if k == "params" || x.is_null() {
            continue;
        }
        if let Some(f) = k.strip_prefix('=') {
            let e = match f {
                "request_id" => &want["id"],
                _ => continue,
            };
            if x["text"].as_str().map(canon) != Some(e.to_string()) {
                bad(format!("{helper}{f}"), format!("{f} says {x}"));
            }
            continue;
        }
        if let Some(e) = x.get("unread") {
            bad(format!("{helper}{k}|unread"), format!("a valid part cannot be {k}: {e}"));
            continue;
        }
        let Some(text) = x.get("text").and_then(Value::as_str) else {
            bad(format!("{helper}{k}|unencoded"), format!("{k} cannot be encoded: {x}"));
            continue;
        };
        let got: Value = serde_json::from_str(text).unwrap_or(Value::Null);
        let inner = if k == "into RpcError" && want.get("error").is_some() { &want["error"] } else { want };
        let mut full = inner.clone();
        if k == "new" || helper == "@call" {
            // a constructor states the constants of its type
            for (c, x) in ver.sch.get(canonical(ty))["properties"].as_object().into_iter().flatten() {
                if let (Some(x), Some(m)) = (x.get("const"), full.as_object_mut()) {
                    m.entry(c.clone()).or_insert(x.clone());
                }
            }
        }
        if let Some((path, w)) = diff(inner, &got).and_then(|_| diff(&full, &got)) {
            let kindw = if w == "lost" || w == "invented" { w.clone() } else { "changed".into() };
            bad(format!("{helper}{k}|{}|{kindw}", generic_path(&path)), format!("{k}: member {path} {w}"));
        } else if same(want, &got) {
            made.push(got);
        }
    }
}

fn judge_word(ver: &Ver, want: &Value, rep: &Value, out: &mut Vec<Viol>) {
    let s = want.as_str().unwrap_or("");
    if let Some(x) = rep.get("panic") {
        out.push(v("part", ver, "@word|panic", format!("panic on {s:?}: {x}")));
        return;
    }
    for (t, x) in rep.as_object().into_iter().flatten() {
        if !ver.sch.has(t) {
            continue;
        }
        let known = ver.sch.get(t)["enum"].as_array().is_some_and(|a| a.contains(want));
        if t == "IconTheme" && !known {
            continue; // any word is taken for a theme, by design
        }
        let ok = if known { x["got"] == *want && x["shown"] == *want } else { x.get("refused").is_some() };
        if !ok {
            out.push(v("part", ver, &format!("@word|{t}"), format!("the word {s:?} as {t}: {x}")));
        }
    }
}

fn judge_meta(ver: &Ver, want: &Value, rep: &Value, out: &mut Vec<Viol>) {
    const REL: &str = "io.modelcontextprotocol/related-task";
    let mut m = serde_json::Map::new();
    for it in want.as_array().into_iter().flatten() {
        let (k, x) = (it[1].as_str().unwrap_or("").to_string(), it[2].clone());
        match it[0].as_u64().unwrap_or(0) {
            2 => {}
            4 => {
                m.insert(REL.into(), json!({"taskId": x}));
            }
            _ => {
                m.insert(k, x);
            }
        }
    }
    let rel = m.get(REL).map(|x| x["taskId"].clone()).unwrap_or(Value::Null);
    let got: Value = rep["enc"]["text"].as_str().and_then(|t| serde_json::from_str(t).ok()).unwrap_or(Value::Null);
    if !same(&Value::Object(m), &got) || rep["related"] != rel {
        out.push(v("part", ver, "@meta", format!("metadata built item by item from {want} is {rep}")));
    }
}
