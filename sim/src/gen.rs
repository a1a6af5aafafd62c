//! Plans: everything a run will do, drawn from its seed before it starts.
use crate::cat::*;
use crate::jsonx::*;
use crate::rng::*;
use crate::schema::Gen;
use crate::world::Profile;
use crate::Ctx;
use serde_json::{json, Map, Value};

pub fn error_obj(g: &Gen, r: &mut Rng) -> Value {
    let mut m = Map::new();
    m.insert("code".into(), json!(if r.p(0.15) { g.int(r) } else { *r.pick(&[-32700i64, -32600, -32601, -32602, -32603, -32000, -32001, -32002, -32042, 0, 1, -1, 404, i64::MAX, i64::MIN, 2147483648]) }));
    m.insert("message".into(), json!(g.string(r)));
    if r.p(0.6) {
        let mut d = g.any(r, 3);
        while d.is_null() {
            d = g.any(r, 3);
        }
        m.insert("data".into(), d);
    }
    Value::Object(m)
}

/// A custom result: members the specification does not know.
pub fn custom_result(v: &Ver, g: &Gen, r: &mut Rng) -> Value {
    let mut m = Map::new();
    g.vendor_into(r, &mut m);
    if r.p(0.3) {
        m.insert("_meta".into(), {
            let mut k = Map::new();
            if r.p(0.9) {
                g.vendor_into(r, &mut k);
            }
            Value::Object(k)
        });
    }
    if v.fam == Fam::C {
        m.insert("resultType".into(), json!(if r.p(0.7) { "complete" } else { "x_vendor" }));
    }
    Value::Object(m)
}

pub fn custom_params(g: &Gen, r: &mut Rng) -> Option<Value> {
    if r.p(0.2) {
        return None;
    }
    let mut m = Map::new();
    let n = r.below(4);
    for _ in 0..n {
        if r.p(0.5) {
            g.vendor_into(r, &mut m);
        } else if r.p(0.05) {
            m.insert(crate::schema::wild_string(r), g.any(r, 3));
        } else {
            m.insert(r.pick(&["name", "uri", "value", "method", "params", "id", "cursor", "level", "x", "progressToken", "arguments", "taskId"]).to_string(), g.any(r, 3));
        }
    }
    if r.p(0.25) {
        let mut k = Map::new();
        if r.p(0.9) {
            g.vendor_into(r, &mut k);
        }
        if r.p(0.3) {
            k.insert("progressToken".into(), if r.p(0.5) { json!(g.int(r)) } else { json!(g.string(r)) });
        }
        m.insert("_meta".into(), Value::Object(k));
    }
    Some(Value::Object(m))
}

fn build_route(r: &mut Rng, p: f64) -> Value {
    if r.p(p) { json!({"via": "build", "er": r.below(9)}) } else { Value::Null }
}

const MKERR_A: &[&str] = &["method_not_found", "invalid_params", "invalid_request", "internal_error", "parse_error"];
const MKERR_SDK: &[&str] = &["connection_closed", "session_not_found", "invalid_request", "method_not_found", "invalid_params", "internal_error", "parse_error", "resource_not_found", "bad_request", "request_timeout"];

pub fn code_of(which: &str) -> i64 {
    match which {
        "parse_error" => -32700,
        "invalid_request" => -32600,
        "method_not_found" => -32601,
        "invalid_params" => -32602,
        "internal_error" => -32603,
        "connection_closed" => -32000,
        "request_timeout" => -32001,
        "resource_not_found" => -32002,
        "bad_request" => -32015,
        "session_not_found" => -32016,
        "url_elicit_required" => -32042,
        "header_mismatch" => -32020,
        "missing_required_client_capability" => -32021,
        "unsupported_protocol_version" => -32022,
        _ => 0,
    }
}

/// A failure raised through the library, and the frame (without id) it must produce.
fn raised(v: &Ver, g: &Gen, r: &mut Rng, from_server: bool, id: &Value, tool: bool) -> Value {
    if tool && from_server && r.p(0.5) {
        let mut pool = vec!["unknown", "invalid", "io", "msg", "msg", "chain"];
        if v.fam != Fam::A {
            pool.push("notask");
        }
        let which = *r.pick(&pool);
        let mut q = json!({"which": which, "name": g.string(r), "route": r.below(2)});
        if which != "unknown" && which != "notask" && (which != "invalid" || r.p(0.7)) {
            q["message"] = json!(g.string(r));
        }
        if which == "chain" {
            q["causes"] = (0..1 + r.below(3)).map(|_| json!(g.string(r))).collect();
        }
        let mut res = json!({"content": [{"type": "text", "text": ""}], "isError": true});
        if v.fam == Fam::C {
            res["resultType"] = json!("complete");
        }
        return json!({"kind": "response", "ty": "CallToolResult", "toolerr": q, "frame": frame_response(id, res)});
    }
    if v.fam == Fam::C && r.p(0.12) {
        // the two conditions that have an error type of their own, with the details that type demands
        let (which, data) = if r.p(0.5) {
            let n = r.below(4);
            ("unsupported_protocol_version", json!({"requested": g.string(r), "supported": (0..n).map(|_| g.string(r)).collect::<Vec<_>>()}))
        } else {
            ("missing_required_client_capability", json!({"requiredCapabilities": g.named(r, "ClientCapabilities")}))
        };
        let m = g.string(r);
        let q = json!({"which": which, "route": 5, "message": m, "data": data});
        return json!({"kind": "error", "ty": "error", "mkerr": q, "frame": frame_error(id, json!({"code": code_of(which), "message": m, "data": data}))});
    }
    let route = *r.pick(&[0u64, 1, 2, 3, 4, 6]);
    let mut pool: Vec<&str> = if route >= 4 { MKERR_SDK.to_vec() } else { MKERR_A.to_vec() };
    if v.fam == Fam::B && (route < 2 || route >= 4) {
        pool.push("url_elicit_required");
        pool.push("url_elicit_required");
    }
    if v.fam == Fam::C {
        if route == 2 || route == 3 || route == 6 {
            pool.extend(["missing_required_client_capability", "unsupported_protocol_version"]);
        }
        if route < 4 {
            pool.push("header_mismatch");
        }
    }
    let which = *r.pick(&pool);
    let mut q = json!({"which": which, "route": route});
    let mut e = json!({"code": code_of(which), "message": ""});
    if r.p(0.5) || route == 2 || route == 3 || route == 6 || which == "header_mismatch" {
        let m = g.string(r);
        q["message"] = json!(m);
        e["message"] = json!(m);
    }
    if r.p(0.5) {
        let mut d = g.any(r, 3);
        while d.is_null() {
            d = g.any(r, 3);
        }
        q["data"] = d.clone();
        e["data"] = d;
    }
    if which == "request_timeout" && route != 6 {
        q["timeout"] = json!(*r.pick(&[0u64, 1, 30, 60000, 4294967296]));
    }
    if which == "url_elicit_required" && route != 6 {
        let n = r.below(3);
        let urls: Vec<Value> = (0..n).map(|_| {
            let mut u = g.named(r, "ElicitRequestUrlParams");
            u["mode"] = json!("url");
            u
        }).collect();
        q["urls"] = json!(urls);
        if e.get("data").is_none() {
            e["data"] = json!({"elicitations": urls});
        }
    }
    json!({"kind": "error", "ty": "error", "mkerr": q, "frame": frame_error(id, e)})
}

/// What the handling peer will answer.
fn reply_for(v: &Ver, g: &Gen, r: &mut Rng, from: &str, req: &str, id: &Value, errs: f64, build: f64) -> Value {
    let side = if from == "c" { "s" } else { "c" };
    let mut o = if r.p(errs) {
        json!({"kind": "error", "ty": "error", "frame": frame_error(id, error_obj(g, r))})
    } else if req == "custom" {
        json!({"kind": "response", "ty": "custom", "frame": frame_response(id, custom_result(v, g, r))})
    } else {
        let mut ty = v.result_of(req);
        if v.fam == Fam::B && r.p(0.12) && v.ress(side).contains(&"CreateTaskResult") && ["CallToolRequest", "CreateMessageRequest", "ElicitRequest"].contains(&req) {
            ty = "CreateTaskResult";
        }
        if v.fam == Fam::C && side == "s" && r.p(0.25) && ["CallToolRequest", "GetPromptRequest", "ReadResourceRequest"].contains(&req) {
            ty = "InputRequiredResult";
        }
        let body = if ty == "Result" { custom_result_or_empty(v, g, r) } else { v.result(g, r, ty) };
        json!({"kind": "response", "ty": ty, "frame": frame_response(id, body)})
    };
    o["style"] = json!(r.below(4));
    if r.p(build) && o["ty"] != "custom" {
        o["build"] = json!(r.below(9));
    }
    o
}
fn custom_result_or_empty(v: &Ver, g: &Gen, r: &mut Rng) -> Value {
    if r.p(0.5) {
        let mut m = Map::new();
        if v.fam == Fam::C {
            m.insert("resultType".into(), json!("complete"));
        }
        Value::Object(m)
    } else {
        custom_result(v, g, r)
    }
}

pub struct Mix {
    pub ops: (usize, usize),
    pub relays: &'static [usize],
    pub generic: f64,
    pub build: f64,
    pub custom: f64,
    pub notif: f64,
    pub errs: f64,
    pub raised: f64,
    pub corrupt: f64,
    pub crash: f64,
    pub vers: Vec<usize>,
    pub meta: f64,
    pub vendor: bool,
}

pub fn base_mix(prop: &str) -> Mix {
    let mut m = Mix { ops: (4, 16), relays: &[0, 1, 1, 2, 3, 4], generic: 0.25, build: 0.35, custom: 0.1, notif: 0.25, errs: 0.1, raised: 0.0, corrupt: 0.0, crash: 0.3, vers: vec![0, 1, 2, 3, 4, 5], meta: 0.0, vendor: false };
    match prop {
        "C02" => {
            m.relays = &[0, 0, 1, 2];
            m.generic = 0.2;
            m.build = 0.1;
        }
        "C03" => {
            m.corrupt = 0.5;
            m.relays = &[0, 1, 2];
            m.generic = 0.0;
            m.build = 0.0;
            m.notif = 0.3;
        }
        "C04" => {
            m.ops = (8, 30);
            m.relays = &[0, 1, 2];
            m.notif = 0.25;
            m.build = 0.3;
            m.errs = 0.2;
            m.crash = 0.5;
            m.custom = 0.15;
        }
        "C05" => {
            m.notif = 0.05;
            m.errs = 0.3;
            m.raised = 0.8;
            m.relays = &[0, 1, 2];
        }
        "C06" => {
            m.custom = 0.7;
            m.notif = 0.4;
            m.vendor = true;
            m.build = 0.35;
        }
        "C14" => {
            m.meta = 0.7;
            m.vers = vec![4, 5];
            m.custom = 0.05;
            m.relays = &[0, 1, 2];
            m.notif = 0.05;
            m.vendor = true;
        }
        _ => {}
    }
    m
}

const META_KEYS: &[&str] = &["io.modelcontextprotocol/clientInfo", "io.modelcontextprotocol/logLevel", "progressToken", "traceparent", "tracestate", "baggage"];

/// Metadata made of the known items only, for the builders.
fn meta_obj(v: &Ver, g: &Gen, r: &mut Rng) -> (Value, Value) {
    let caps = g.named(r, "ClientCapabilities");
    let mut m = json!({"io.modelcontextprotocol/protocolVersion": *r.pick(&["2026-07-28", "DRAFT", "2025-11-25", "", "x"]), "io.modelcontextprotocol/clientCapabilities": caps});
    let mut order: Vec<&str> = META_KEYS.to_vec();
    r.shuffle(&mut order);
    for k in &order {
        if !r.p(0.6) {
            continue;
        }
        m[*k] = match *k {
            "io.modelcontextprotocol/clientInfo" => g.named(r, "Implementation"),
            "io.modelcontextprotocol/logLevel" => g.named(r, "LoggingLevel"),
            "progressToken" => if r.p(0.5) { json!(g.int(r)) } else { json!(g.string(r)) },
            "traceparent" | "tracestate" | "baggage" if r.p(0.3) => json!(g.string(r)),
            "traceparent" => json!(*r.pick(&["00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01", "", "x"])),
            "tracestate" => json!(*r.pick(&["rojo=00f067aa0ba902b7,congo=t61", "", "é"])),
            _ => json!(*r.pick(&["userId=alice,serverNode=DF%2028", "", "k=v"])),
        };
    }
    let _ = v;
    (m, json!(order))
}

pub fn session(ctx: &Ctx, seed: u64, prop: &str) -> Value {
    let mut rr = Rng::new(hash_str(seed, prop));
    let r = &mut rr;
    let mix = base_mix(prop);
    let vi = *r.pick(&mix.vers);
    let v = &ctx.vers[vi];
    session_with(ctx, r, prop, seed, &mix, v)
}

pub fn session_with(_ctx: &Ctx, r: &mut Rng, prop: &str, seed: u64, mix: &Mix, v: &Ver) -> Value {
    let relays = *r.pick(mix.relays);
    let mut nodes = vec!["client".to_string()];
    for _ in 0..relays {
        nodes.push(if r.p(mix.generic) { "g".into() } else { "r".into() });
    }
    nodes.push("server".into());
    let n = nodes.len();
    let span = *r.pick(&[0u64, 50, 500, 3000]);
    let mut g = gen_for(v, r);
    if mix.vendor {
        g.vendor = 0.8;
        g.opt = g.opt.max(0.5);
    }
    let count = r.scale(mix.ops.0 as i64, mix.ops.1 as i64, 0.002, 150) as usize;
    let mut used: [Vec<Value>; 2] = [vec![], vec![]];
    let mut ops = vec![];
    for u in 0..count {
        if r.p(0.3) {
            let keep = (g.vendor, g.opt);
            g = gen_for(v, r);
            if mix.vendor {
                g.vendor = keep.0;
                g.opt = g.opt.max(0.5);
            }
        }
        let from = if r.p(0.6) || mix.meta > 0.5 { "c" } else { "s" };
        let e = if from == "c" { 0 } else { 1 };
        let t = if span == 0 { 0 } else { r.below(span as usize) as u64 };
        let notif = r.p(mix.notif);
        let custom = r.p(mix.custom);
        let mut o = if notif {
            let (ty, frame) = if custom {
                ("custom", frame_notification(&vendor_method(r, v, "notification"), custom_params(&g, r)))
            } else {
                let mut ty = *r.pick(v.nots(from));
                if prop == "C04" {
                    let pool: Vec<&str> = v.nots(from).iter().copied().filter(|t| *t == "CancelledNotification" || *t == "ProgressNotification").collect();
                    ty = *r.pick(&pool);
                }
                let mut f = v.notification(&g, r, ty);
                if prop == "C04" && !used[e].is_empty() {
                    let id = r.pick(&used[e]).clone();
                    if let Some(p) = f.get_mut("params").and_then(Value::as_object_mut) {
                        let k = if ty == "CancelledNotification" { "requestId" } else { "progressToken" };
                        p.insert(k.into(), id);
                    }
                }
                (ty, f)
            };
            json!({"kind": "notification", "ty": ty, "frame": frame})
        } else {
            let id = fresh_id(r, &mut used[e]);
            let (ty, frame) = if custom {
                ("custom", frame_request(&id, &vendor_method(r, v, "request"), custom_params(&g, r)))
            } else {
                let mut pool = v.reqs(from).to_vec();
                if v.fam == Fam::C && from == "s" && r.p(0.5) {
                    pool.retain(|t| *t == "ElicitRequest");
                }
                if mix.raised > 0.0 && from == "c" && r.p(0.4) {
                    pool.retain(|t| *t == "CallToolRequest");
                }
                let ty = *r.pick(&pool);
                (ty, v.request(&g, r, ty, &id))
            };
            let reply = if r.p(mix.raised) {
                raised(v, &g, r, from == "c", &id, ty == "CallToolRequest")
            } else {
                reply_for(v, &g, r, from, ty, &id, mix.errs, mix.build)
            };
            json!({"kind": "request", "ty": ty, "frame": frame, "reply": reply, "work": *r.pick(&[0u64, 1, 10, 100, 700])})
        };
        o["u"] = json!(u);
        o["t"] = json!(t);
        o["from"] = json!(from);
        o["style"] = json!(r.below(4));
        o["build"] = build_route(r, mix.build);
        if mix.meta > 0.0 && o["kind"] == "request" && o["ty"] != "custom" && from == "c" && r.p(mix.meta) {
            let (m, order) = meta_obj(v, &g, r);
            let old = if r.p(0.5) { meta_obj(v, &g, r).0 } else { o["frame"]["params"]["_meta"].clone() };
            if o["frame"].get("params").is_some() {
                o["frame"]["params"]["_meta"] = m;
                o["build"] = json!({"via": "meta", "order": order, "old": old});
            }
        }
        ops.push(o);
    }
    let heal = 4000u64;
    let mut events = vec![];
    if r.p(mix.crash) {
        for _ in 0..1 + r.below(3) {
            let t = r.below(3000) as u64;
            events.push(json!({"e": "crash", "n": r.below(n), "t": t, "down": 1 + r.below(900)}));
        }
    }
    if r.p(0.25) {
        let t = r.below(3000) as u64;
        events.push(json!({"e": "part", "n": r.below(n - 1), "t": t, "dur": 1 + r.below(900)}));
    }
    let skew = |r: &mut Rng| json!(*r.pick(&[1.0, 1.0, 1.0, 0.25, 0.5, 3.0]));
    json!({"scn": "session", "prop": prop, "seed": seed, "nodes": nodes, "vers": vec![v.idx; n], "net_seed": r.next() >> 8, "prof": Profile::draw(r, mix.corrupt),
           "rto": *r.pick(&[300u64, 700, 1500]), "patience": 30000, "heal": heal, "skew": [skew(r), skew(r)], "ops": ops, "events": events, "faults": null})
}
#[allow(dead_code)]
pub fn kind(o: &Value) -> &str {
    st(o, "kind")
}
