//! The oracle for one hop: what the library must report about a frame the simulator sent.
use crate::cat::*;
use crate::jsonx::*;
use crate::schema::Mode;
use serde_json::{json, Value};

#[derive(Clone, Debug)]
pub struct Viol {
    /// Which kind of promise is broken: enc, class, acc, refused, panic, id, reply, live, damage, ...
    pub class: &'static str,
    /// Identifies like violations with each other (used while minimising and for known findings).
    pub sig: String,
    pub text: String,
}

#[derive(Clone)]
pub struct Exp<'a> {
    pub side: &'a str,
    pub kind: &'a str,
    /// Type name, or "custom" / "error".
    pub ty: &'a str,
    pub frame: &'a Value,
}

fn is_typed(ty: &str) -> bool {
    ty != "custom" && ty != "error"
}

pub fn v(class: &'static str, ver: &Ver, what: &str, text: String) -> Viol {
    Viol { class, sig: format!("{class}|{}|{what}", ver.name), text: format!("[{}] {text}", ver.name) }
}

fn cut(s: &str) -> String {
    let mut t: String = s.chars().take(600).collect();
    if t.len() < s.len() {
        t.push('…');
    }
    t
}

/// Judge the reply of `recv` for an undamaged frame. Returns the re-encoded text if there is one.
pub fn check_recv(ver: &Ver, e: &Exp, text: &str, dr: u64, er: u64, reply: &Value, out: &mut Vec<Viol>) -> Option<String> {
    let at_route = format!("{} decode route {dr}, encode route {er}: {}", e.side, cut(text));
    if let Some(p) = reply.get("panic") {
        out.push(v("panic", ver, e.ty, format!("panic while receiving {at_route}: {p}")));
        return None;
    }
    if let Some(x) = reply.get("err") {
        out.push(v("refused", ver, &format!("{}|{}", e.kind, e.ty), format!("a valid {} ({}) was refused: {x}; {at_route}", e.kind, e.ty)));
        return None;
    }
    let d = &reply["ok"];
    if let Some(b) = d["bad"].as_array() {
        for x in b {
            let what = x.as_str().unwrap_or("");
            let class = if what.starts_with("rebuilding refused") { "enc" } else { "acc" };
            out.push(v(class, ver, &format!("{}|{}", e.ty, what.chars().take(60).collect::<String>()), format!("{what} ({} {}); {at_route}", e.kind, e.ty)));
        }
    }
    if st(d, "kind") != e.kind {
        out.push(v("class", ver, &format!("{}|as {}", e.kind, st(d, "kind")), format!("a {} was taken for a {}; {at_route}", e.kind, st(d, "kind"))));
    }
    let id = e.frame.get("id").cloned().unwrap_or(Value::Null);
    if d["id"] != id {
        out.push(v("id", ver, e.kind, format!("id {id} is reported as {}; {at_route}", d["id"])));
    }
    let m = e.frame.get("method").cloned().unwrap_or(Value::Null);
    if d["method"] != m {
        out.push(v("class", ver, &format!("{}|method", e.ty), format!("method {m} is reported as {}; {at_route}", d["method"])));
    }
    if d["jsonrpc"] != "2.0" {
        out.push(v("acc", ver, "jsonrpc", format!("the JSON-RPC version is reported as {}; {at_route}", d["jsonrpc"])));
    }
    if e.kind == "request" || e.kind == "notification" {
        if st(d, "variant") != e.ty {
            out.push(v("class", ver, &format!("{}|variant {}", e.ty, st(d, "variant")), format!("{} is classified as {}; {at_route}", e.ty, st(d, "variant"))));
        }
    } else if e.kind == "response" && is_typed(e.ty) {
        // versions without typed conversions are judged by the variant alone
        let has = match d["as"].as_array() {
            Some(a) => a.iter().any(|x| x == e.ty),
            None => st(d, "variant") == e.ty,
        };
        if !has {
            out.push(v("as", ver, &format!("{}|as {}", e.ty, st(d, "variant")), format!("a {} cannot be read as one (it is held as {}, readable as {}); {at_route}", e.ty, st(d, "variant"), d["as"])));
        }
    }
    check_acc(ver, e, &at_route, &d["acc"], out);
    let enc = d.get("enc").and_then(Value::as_str)?;
    check_enc(ver, e, enc, &at_route, out);
    Some(enc.to_string())
}

/// The family A encoding of a custom message: everything right, except that params holds {method, params}.
fn wrapped_again(frame: &Value, got: &Value) -> bool {
    let p = frame.get("params").cloned().unwrap_or(Value::Null);
    let mut one = frame.clone();
    one["params"] = json!({"method": frame["method"], "params": p});
    let mut two = frame.clone();
    two["params"] = json!({"method": frame["method"]});
    same(&one, got) || (p.is_null() && same(&two, got))
}

pub fn check_enc(ver: &Ver, e: &Exp, enc: &str, ctx: &str, out: &mut Vec<Viol>) {
    match serde_json::from_str::<Value>(enc) {
        Err(x) => out.push(v("enc", ver, &format!("{}|unparsable", e.ty), format!("encoded as something that is not JSON ({x}): {}; {ctx}", cut(enc)))),
        Ok(got) => {
            if let Some((p, w)) = diff(e.frame, &got) {
                if ver.fam == Fam::A && e.ty == "custom" && (e.kind == "request" || e.kind == "notification") && wrapped_again(e.frame, &got) {
                    out.push(v("enc", ver, &format!("{}|custom|wrapped again", e.kind), format!("custom {}: the whole message is nested in its own params; {ctx}", e.kind)));
                    return;
                }
                let kindw = if w == "lost" || w == "invented" { w.clone() } else { "changed".into() };
                out.push(v("enc", ver, &format!("{}|{}|{}|{kindw}", e.kind, e.ty, generic_path(&p)), format!("{} {}: member {p} {w}; {ctx}", e.kind, e.ty)));
            }
        }
    }
    if enc.contains('\n') || enc.contains('\r') {
        out.push(v("line", ver, e.ty, format!("encoding contains a raw line break; {ctx}")));
    }
}

fn content_exp(items: &Value) -> Value {
    json!(items.as_array().map(|a| a.iter().map(|c| json!({"t": c["type"], "as": [[c["type"], c]]})).collect::<Vec<_>>()).unwrap_or_default())
}

fn check_acc(ver: &Ver, e: &Exp, ctx: &str, acc: &Value, out: &mut Vec<Viol>) {
    let f = e.frame;
    let params = f.get("params").unwrap_or(&Value::Null);
    let mut want: Vec<(&str, Value)> = vec![];
    let m = st(f, "method");
    match (e.side, e.kind) {
        ("c", k) => {
            let init = k == "request" && e.ty == "InitializeRequest";
            let inited = k == "notification" && e.ty == "InitializedNotification";
            for n in ["is_init", "is_init2", "is_init3"] {
                want.push((n, json!(init)));
            }
            for n in ["is_inited", "is_inited2", "is_inited3", "is_inited4"] {
                want.push((n, json!(inited)));
            }
        }
        _ => {}
    }
    if e.ty == "CallToolRequest" {
        want.push(("tool_name", params["name"].clone()));
    }
    if ver.fam == Fam::B && e.kind == "request" && is_typed(e.ty) {
        let aug = params.get("task").is_some_and(|t| !t.is_null());
        for n in ["augmented", "augmented2", "augmented3", "augmented4"] {
            want.push((n, json!(aug)));
        }
    }
    if e.ty == "ElicitRequest" {
        want.push(("elicit_message", params["message"].clone()));
    }
    if e.ty == "CallToolResult" {
        want.push(("content", content_exp(&f["result"]["content"])));
    }
    if e.kind == "notification" {
        want.push(("method2", json!(m)));
    }
    if ver.fam == Fam::C {
        if e.side == "c" && e.kind == "request" && is_typed(e.ty) {
            want.push(("meta", params["_meta"].clone()));
            if let Some(mt) = params.get("_meta") {
                let t = |k: &str| mt.get(k).filter(|x| x.is_string()).cloned().unwrap_or(Value::Null);
                want.push(("trace", json!([t("traceparent"), t("tracestate"), t("baggage")])));
            }
        }
        if e.side == "s" && e.kind == "response" {
            let ir = e.ty == "InputRequiredResult";
            want.push(("input_required", json!(ir)));
            want.push(("complete", json!(!ir)));
            want.push(("as_input_required", json!(ir)));
            if ir {
                if let Some(q) = f["result"].get("inputRequests").and_then(Value::as_object) {
                    let mut each = serde_json::Map::new();
                    for (k, x) in q {
                        let mm = st(x, "method");
                        let msg = if mm == "elicitation/create" { x["params"]["message"].clone() } else { Value::Null };
                        each.insert(k.clone(), json!({"method": mm, "as": [mm], "get": true, "message": msg}));
                    }
                    let mut keys: Vec<&String> = q.keys().collect();
                    keys.sort();
                    want.push(("inputs", json!({"each": each, "len": q.len(), "empty": q.is_empty(), "keys": keys, "absent": true})));
                }
            }
        }
    }
    for (k, w) in want {
        let Some(g) = acc.get(k) else { continue };
        let mut g = g.clone();
        if k == "inputs" {
            // the set of keys matters, not the order in which a map yields them
            if let Some(a) = g.get_mut("keys").and_then(Value::as_array_mut) {
                a.sort_by_key(|x| x.to_string());
            }
            let mut w = w.clone();
            if let Some(a) = w.get_mut("keys").and_then(Value::as_array_mut) {
                a.sort_by_key(|x| x.to_string());
            }
            if let Some((p, x)) = diff(&w, &g) {
                out.push(v("acc", ver, &format!("{}|inputs", e.ty), format!("demanded inputs: {p} {x}; {ctx}")));
            }
            continue;
        }
        if let Some((p, x)) = diff(&w, &g) {
            let k2 = if p.is_empty() { k.to_string() } else { format!("{k}/{}", generic_path(&p)) };
            out.push(v("acc", ver, &format!("{}|{k2}", e.ty), format!("{} {}: accessor {k}: {p} {x}; {ctx}", e.kind, e.ty)));
        }
    }
}

/// What a frame is by the JSON-RPC envelope alone.
#[derive(Debug, PartialEq)]
pub enum Env {
    Request,
    Notification,
    Response,
    Error,
    /// Must be refused, with the reason.
    Malformed(&'static str),
    /// Not settled by the envelope rules (for example both a method and a result): only panics are judged.
    Unclear,
}

pub fn id_ok(v: &Value) -> bool {
    v.is_string() || v.as_i64().is_some()
}

pub fn envelope(ver: &Ver, side: &str, v: &Value) -> Env {
    let Some(o) = v.as_object() else { return Env::Malformed("not an object") };
    match o.get("jsonrpc") {
        // requests to a client are parts of replies in these versions; their type gives the marker a default
        None if ver.fam == Fam::C && side == "s" && o.contains_key("method") && o.contains_key("id") => return Env::Unclear,
        None => return Env::Malformed("no protocol marker"),
        Some(x) if x != "2.0" => return Env::Malformed("wrong protocol marker"),
        _ => {}
    }
    let id = o.get("id");
    if let Some(i) = id {
        if !id_ok(i) {
            // an error reply whose id could not be determined may carry null
            if o.contains_key("error") && i.is_null() {
                return Env::Unclear;
            }
            return Env::Malformed("unrepresentable id");
        }
    }
    let n = ["method", "result", "error"].iter().filter(|k| o.contains_key(**k)).count();
    if n > 1 {
        return Env::Unclear;
    }
    if n == 0 {
        return Env::Malformed("neither method, result nor error");
    }
    if let Some(m) = o.get("method") {
        if !m.is_string() {
            return Env::Malformed("method is not a string");
        }
        if let Some(p) = o.get("params") {
            if !p.is_object() {
                // the protocol wants an object, JSON-RPC also allows an array
                let standard = ver.type_of(side, if id.is_some() { "request" } else { "notification" }, m.as_str().unwrap_or("")).is_some();
                if p.is_null() || !standard {
                    return Env::Unclear;
                }
            }
        }
        return if id.is_some() { Env::Request } else { Env::Notification };
    }
    if let Some(r) = o.get("result") {
        if id.is_none() {
            return Env::Malformed("reply without an id");
        }
        return if r.is_object() { Env::Response } else { Env::Unclear };
    }
    let e = &o["error"];
    if id.is_none() {
        return if ver.fam == Fam::A { Env::Malformed("error without an id") } else { Env::Unclear };
    }
    if e["code"].as_i64().is_some() && e["message"].is_string() && e.is_object() { Env::Error } else { Env::Malformed("error without code or message") }
}

/// Judge what became of a damaged frame.
pub fn check_damaged(ver: &Ver, side: &str, text: &str, dr: u64, reply: &Value, out: &mut Vec<Viol>) {
    let ctx = format!("{side} decode route {dr}: {}", cut(text));
    if let Some(p) = reply.get("panic") {
        out.push(v("panic", ver, "damaged", format!("panic on a damaged frame {ctx}: {p}")));
        return;
    }
    let env = match serde_json::from_str::<Value>(text) {
        Err(_) => Env::Malformed("not JSON"),
        // repeated members and outsized integers have no agreed meaning
        Ok(_) if !plain(text) => Env::Unclear,
        Ok(x) => envelope(ver, side, &x),
    };
    if let Some(e) = reply.get("err") {
        if dr == 0 || dr == 5 {
            if e["code"] != -32700 {
                out.push(v("damage", ver, "code", format!("refused with {} and not as a parse error; {ctx}", e["code"])));
            }
            let detail = !st(e, "message").is_empty() && !e["data"].is_null() && e["data"] != json!({}) && e["data"] != json!("");
            if !detail {
                out.push(v("damage", ver, "details", format!("refused without details: {e}; {ctx}")));
            }
        } else if st(e, "message").is_empty() {
            out.push(v("damage", ver, "details", format!("refused without details: {e}; {ctx}")));
        }
        return;
    }
    let d = &reply["ok"];
    let kind = st(d, "kind");
    let want = match env {
        Env::Malformed(why) => {
            out.push(v("damage", ver, &format!("{why}|as {kind}"), format!("a malformed frame ({why}) was delivered as a {kind} ({}); {ctx}", st(d, "variant"))));
            return;
        }
        Env::Unclear => return,
        Env::Request => "request",
        Env::Notification => "notification",
        Env::Response => "response",
        Env::Error => "error",
    };
    let x: Value = serde_json::from_str(text).unwrap();
    if kind != want {
        out.push(v("damage", ver, &format!("{want}|as {kind}"), format!("a damaged {want} was delivered as a {kind}; {ctx}")));
        return;
    }
    if d["id"] != *x.get("id").unwrap_or(&Value::Null) || d["method"] != *x.get("method").unwrap_or(&Value::Null) {
        out.push(v("damage", ver, &format!("{want}|envelope"), format!("id or method misreported as {} {}; {ctx}", d["id"], d["method"])));
    }
    if kind == "request" || kind == "notification" {
        let var = st(d, "variant");
        if let Some(t) = ver.type_of(side, kind, st(&x, "method")) {
            if var == t {
                let (ps, must) = ver.params_schema(t);
                let good = |arrays: bool, nulls: bool| match x.get("params") {
                    None => !must,
                    Some(p) => ps.is_null() || (p.is_null() && !must) || ver.sch.ok(ps, p, Mode::Lenient { consts: ver.fam != Fam::A, arrays, nulls }),
                };
                if !good(false, false) {
                    let why = if good(true, false) {
                        "array read as object".to_string()
                    } else if good(true, true) {
                        "required nullable member missing".to_string()
                    } else {
                        format!("{t}|invalid params")
                    };
                    out.push(v("damage", ver, &why, format!("a {t} whose parameters violate the specification was delivered as one; {ctx}")));
                }
            } else if var != "custom" {
                out.push(v("damage", ver, &format!("{t}|as {var}"), format!("a damaged {t} was delivered as {var}; {ctx}")));
            }
        } else if var != "custom" {
            out.push(v("damage", ver, &format!("custom|as {var}"), format!("a custom {kind} was delivered as {var}; {ctx}")));
        }
    }
}
