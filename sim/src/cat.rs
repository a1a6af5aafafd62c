//! The operations of each protocol version, and frames made from the specification's schemas.
use crate::jsonx::*;
use crate::lib_so::Lib;
use crate::rng::Rng;
use crate::schema::*;
use serde_json::{json, Map, Value};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fam {
    A,
    B,
    C,
}
pub struct Ver {
    pub idx: usize,
    pub name: &'static str,
    pub wire: &'static str,
    pub fam: Fam,
    pub sch: Schemas,
    pub lib: Lib,
    pub creq: Vec<&'static str>,
    pub cnot: Vec<&'static str>,
    pub cres: Vec<&'static str>,
    pub sreq: Vec<&'static str>,
    pub snot: Vec<&'static str>,
    pub sres: Vec<&'static str>,
}
pub const NAMES: [&str; 6] = ["v2024_11_05", "v2025_03_26", "v2025_06_18", "v2025_11_25", "v2026_07_28", "vdraft"];
pub const WIRE: [&str; 6] = ["2024-11-05", "2025-03-26", "2025-06-18", "2025-11-25", "2026-07-28", "DRAFT"];
const DATA: [&str; 6] = [
    include_str!("../data/2024_11_05.json"),
    include_str!("../data/2025_03_26.json"),
    include_str!("../data/2025_06_18.json"),
    include_str!("../data/2025_11_25.json"),
    include_str!("../data/2026_07_28.json"),
    include_str!("../data/draft.json"),
];

fn w(s: &'static str) -> Vec<&'static str> {
    s.split_whitespace().collect()
}

impl Ver {
    pub fn load(idx: usize, dir: &str) -> Result<Ver, String> {
        let lib = Lib::open(&format!("{dir}/ad_{}/debug/libvp_adapter.so", NAMES[idx]))?;
        let sch = Schemas::load(NAMES[idx], DATA[idx]);
        let fam = [Fam::A, Fam::A, Fam::A, Fam::B, Fam::C, Fam::C][idx];
        let elicit = idx == 2;
        let (mut creq, mut cnot, mut cres, mut sreq, mut snot, mut sres);
        match fam {
            Fam::A | Fam::B => {
                creq = w("InitializeRequest PingRequest ListResourcesRequest ListResourceTemplatesRequest ReadResourceRequest SubscribeRequest UnsubscribeRequest ListPromptsRequest GetPromptRequest ListToolsRequest CallToolRequest SetLevelRequest CompleteRequest");
                cnot = w("CancelledNotification InitializedNotification ProgressNotification RootsListChangedNotification");
                cres = w("CreateMessageResult ListRootsResult Result");
                sreq = w("PingRequest CreateMessageRequest ListRootsRequest");
                snot = w("CancelledNotification ProgressNotification ResourceListChangedNotification ResourceUpdatedNotification PromptListChangedNotification ToolListChangedNotification LoggingMessageNotification");
                sres = w("InitializeResult ListResourcesResult ListResourceTemplatesResult ReadResourceResult ListPromptsResult GetPromptResult ListToolsResult CallToolResult CompleteResult Result");
                if elicit || fam == Fam::B {
                    cres.push("ElicitResult");
                    sreq.push("ElicitRequest");
                }
                if fam == Fam::B {
                    for r in w("GetTaskRequest GetTaskPayloadRequest CancelTaskRequest ListTasksRequest") {
                        creq.push(r);
                        sreq.push(r);
                    }
                    for r in w("GetTaskResult CancelTaskResult ListTasksResult CreateTaskResult GetTaskPayloadResult") {
                        cres.push(r);
                        sres.push(r);
                    }
                    cnot.push("TaskStatusNotification");
                    snot.push("TaskStatusNotification");
                    snot.push("ElicitationCompleteNotification");
                }
            }
            Fam::C => {
                creq = w("DiscoverRequest ListResourcesRequest ListResourceTemplatesRequest ReadResourceRequest SubscriptionsListenRequest ListPromptsRequest GetPromptRequest ListToolsRequest CallToolRequest CompleteRequest");
                cnot = w("CancelledNotification");
                cres = w("CreateMessageResult ListRootsResult ElicitResult Result");
                sreq = w("CreateMessageRequest ListRootsRequest ElicitRequest");
                snot = w("CancelledNotification ProgressNotification ResourceListChangedNotification SubscriptionsAcknowledgedNotification ResourceUpdatedNotification PromptListChangedNotification ToolListChangedNotification LoggingMessageNotification");
                sres = w("InputRequiredResult DiscoverResult ListResourcesResult ListResourceTemplatesResult ReadResourceResult SubscriptionsListenResult ListPromptsResult GetPromptResult ListToolsResult CallToolResult CompleteResult Result");
            }
        }
        Ok(Ver { idx, name: NAMES[idx], wire: WIRE[idx], fam, sch, lib, creq, cnot, cres, sreq, snot, sres })
    }
    pub fn reqs(&self, side: &str) -> &[&'static str] {
        if side == "c" { &self.creq } else { &self.sreq }
    }
    pub fn nots(&self, side: &str) -> &[&'static str] {
        if side == "c" { &self.cnot } else { &self.snot }
    }
    pub fn ress(&self, side: &str) -> &[&'static str] {
        if side == "c" { &self.cres } else { &self.sres }
    }
    pub fn method_of(&self, ty: &str) -> &str {
        self.sch.get(ty)["properties"]["method"]["const"].as_str().unwrap_or("")
    }
    /// The standard operation of this side and kind with that method.
    pub fn type_of(&self, side: &str, kind: &str, method: &str) -> Option<&'static str> {
        let l = if kind == "request" { self.reqs(side) } else { self.nots(side) };
        l.iter().find(|t| self.method_of(t) == method).copied()
    }
    pub fn all_methods(&self) -> Vec<&str> {
        let mut v: Vec<&str> = self.creq.iter().chain(&self.cnot).chain(&self.sreq).chain(&self.snot).map(|t| self.method_of(t)).collect();
        v.sort();
        v.dedup();
        v
    }
    /// The result type a request calls for.
    pub fn result_of(&self, req: &str) -> &'static str {
        let want = match req {
            "CreateMessageRequest" => "CreateMessageResult",
            "ListRootsRequest" => "ListRootsResult",
            "ElicitRequest" => "ElicitResult",
            r => {
                let base = r.strip_suffix("Request").unwrap_or(r);
                let name = format!("{base}Result");
                return self.sres.iter().copied().find(|x| *x == name).unwrap_or("Result");
            }
        };
        want
    }
    pub fn params_schema<'a>(&'a self, ty: &str) -> (&'a Value, bool) {
        let s = self.sch.get(ty);
        let must = s["required"].as_array().is_some_and(|a| a.iter().any(|x| x == "params"));
        (&s["properties"]["params"], must)
    }
    pub fn body(&self, g: &Gen, r: &mut Rng, ty: &str) -> Option<Value> {
        let (ps, must) = self.params_schema(ty);
        if ps.is_null() || (!must && !r.p(g.opt.max(0.3))) {
            return None;
        }
        Some(g.value(r, ps, 0))
    }
    pub fn request(&self, g: &Gen, r: &mut Rng, ty: &str, id: &Value) -> Value {
        frame_request(id, self.method_of(ty), self.body(g, r, ty))
    }
    pub fn notification(&self, g: &Gen, r: &mut Rng, ty: &str) -> Value {
        frame_notification(self.method_of(ty), self.body(g, r, ty))
    }
    pub fn result(&self, g: &Gen, r: &mut Rng, ty: &str) -> Value {
        let mut v = g.named(r, ty);
        if self.fam == Fam::C {
            if v.get("resultType").is_some() {
                v["resultType"] = json!(match ty {
                    "InputRequiredResult" => "input_required",
                    _ => "complete",
                });
            }
        }
        v
    }
}

pub fn frame_request(id: &Value, method: &str, params: Option<Value>) -> Value {
    let mut m = Map::new();
    m.insert("jsonrpc".into(), json!("2.0"));
    m.insert("id".into(), id.clone());
    m.insert("method".into(), json!(method));
    if let Some(p) = params {
        m.insert("params".into(), p);
    }
    Value::Object(m)
}
pub fn frame_notification(method: &str, params: Option<Value>) -> Value {
    let mut m = Map::new();
    m.insert("jsonrpc".into(), json!("2.0"));
    m.insert("method".into(), json!(method));
    if let Some(p) = params {
        m.insert("params".into(), p);
    }
    Value::Object(m)
}
pub fn frame_response(id: &Value, result: Value) -> Value {
    json!({"jsonrpc": "2.0", "id": id, "result": result})
}
pub fn frame_error(id: &Value, error: Value) -> Value {
    json!({"jsonrpc": "2.0", "id": id, "error": error})
}

const ID_STR: &[&str] = &["", "1", "0", "-1", "01", "1.0", " 1", "null", "true", "9223372036854775807", "-9223372036854775808", "a", "é", "🦀", "\"", "\\", "\n", "req-1", "{}", "2.0", "id", "0x1", "1e0", "\u{0}", "A", "18446744073709551615"];
const ID_INT: &[i64] = &[0, 1, -1, 2, 10, 100, i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, 9007199254740993, -9007199254740993, 4294967296, 2147483648];

/// An id not yet in `used`, drawn to be confusable with the others.
pub fn fresh_id(r: &mut Rng, used: &mut Vec<Value>) -> Value {
    loop {
        let v = match r.below(10) {
            0..=3 => json!(*r.pick(ID_INT)),
            4..=6 => json!(*r.pick(ID_STR)),
            7 => {
                // the other representation of an id in use
                if used.is_empty() {
                    json!(1)
                } else {
                    match r.pick(used).clone() {
                        Value::String(s) => s.parse::<i64>().map(|i| json!(i)).unwrap_or(json!(format!("{s}'"))),
                        n => json!(n.to_string()),
                    }
                }
            }
            8 => match r.below(4) {
                0 => json!(r.next() as i64),
                1 => json!(crate::schema::wild_string(r)),
                2 => json!((1i64 << r.below(63)) + r.range(-1, 1)),
                _ => json!(r.range(-5, 300)),
            },
            _ if used.is_empty() || r.p(0.4) => {
                let n = if r.p(0.7) { r.below(300) + 1 } else { (1usize << r.below(12)) + r.below(3) };
                json!("k".repeat(n))
            }
            // one that almost is an id in use
            _ => match r.pick(used).clone() {
                Value::String(s) => json!(match r.below(8) {
                    0 => format!("{s}0"),
                    1 => format!("{s} "),
                    2 => format!("0{s}"),
                    3 => s.to_uppercase(),
                    4 => s.chars().rev().collect(),
                    5 => format!("{s}\u{301}"),
                    6 => s.replace('e', "\u{435}").replace('-', "_"),
                    _ => {
                        let mut c: Vec<char> = s.chars().collect();
                        c.pop();
                        c.push('z');
                        c.into_iter().collect::<String>()
                    }
                }),
                n => {
                    let n = n.as_i64().unwrap_or(0);
                    json!(match r.below(6) {
                        0 => n.wrapping_add(1),
                        1 => n.wrapping_add(1 << 32),
                        2 => n.wrapping_neg(),
                        3 => n ^ (1 << 62),
                        4 => n.wrapping_mul(10),
                        _ => n & 0xffff_ffff,
                    })
                }
            },
        };
        if !used.contains(&v) {
            used.push(v.clone());
            return v;
        }
    }
}

pub fn vendor_method(r: &mut Rng, v: &Ver, kind: &str) -> String {
    let all = v.all_methods();
    loop {
        let base = r.pick(&all).to_string();
        let m = match r.below(12) {
            0 => format!("{base}/"),
            1 => format!("{base}x"),
            2 => base.to_uppercase(),
            3 => format!(" {base}"),
            4 => base[..base.len() - 1].to_string(),
            5 => base.replace('/', "."),
            6 => format!("x/{base}"),
            7 => format!("vendor/{}", if kind == "notification" { "changed" } else { "do" }),
            8 => r.pick(&["", "x", "é/ü", "a\"b", "rpc.discover", "notifications/", "tools", "a\nb", "notifications/vendor/x", "\\"]).to_string(),
            9 => format!("{base}\u{0}"),
            10 if r.p(0.3) => crate::schema::wild_string(r),
            10 => base.chars().enumerate().map(|(i, c)| if i == 0 { c.to_ascii_uppercase() } else { c }).collect(),
            _ => base.replacen('_', "-", 1) + "2",
        };
        if !all.contains(&m.as_str()) {
            return m;
        }
    }
}

pub fn gen_for<'a>(v: &'a Ver, r: &mut Rng) -> Gen<'a> {
    Gen {
        sch: &v.sch,
        opt: *r.pick(&[0.0, 0.2, 0.5, 0.5, 0.8, 1.0]),
        vendor: *r.pick(&[0.0, 0.2, 0.6]),
        odd: *r.pick(&[0.0, 0.2, 0.5]),
        depth: 3 + r.below(3),
    }
}

/// A structural fingerprint: member names and JSON types, not values.
pub fn shape(v: &Value, h: u64) -> u64 {
    use crate::rng::{hash_str, mix};
    match v {
        Value::Null => mix(h ^ 1),
        Value::Bool(_) => mix(h ^ 2),
        Value::Number(n) => mix(h ^ if n.is_f64() { 3 } else { 4 }),
        Value::String(_) => mix(h ^ 5),
        Value::Array(a) => a.iter().fold(mix(h ^ 6), |h, x| shape(x, h)),
        Value::Object(m) => m.iter().fold(mix(h ^ 7), |h, (k, x)| shape(x, hash_str(h, k))),
    }
}
pub fn id_key(v: &Value) -> String {
    v.to_string()
}
#[allow(dead_code)]
pub fn method_in(v: &Value) -> &str {
    st(v, "method")
}
