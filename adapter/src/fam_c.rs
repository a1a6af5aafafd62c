//! Adapter for the 2026-07-28 and draft API family.
use crate::common::*;
#[cfg(feature = "v2026_07_28")]
use rust_mcp_schema::mcp_2026_07_28 as mcp;
#[cfg(feature = "vdraft")]
use rust_mcp_schema::mcp_draft as mcp;

use mcp::schema_utils::*;
use mcp::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::result::Result as R;
use std::str::FromStr;

fn rpc(e: RpcError) -> Value {
    err(Some(e.code), e.message, e.data)
}
/// Ids that are almost this one.
fn near_ids(id: &RequestId) -> Vec<RequestId> {
    near(&serde_json::to_value(id).unwrap()).into_iter().map(|x| match x {
        Value::String(s) => RequestId::String(s),
        n => RequestId::Integer(n.as_i64().unwrap()),
    }).collect()
}
fn rid(v: &Value) -> Option<RequestId> {
    serde_json::from_value(v.clone()).ok()
}
fn kind_of(t: MessageTypes) -> &'static str {
    match t {
        MessageTypes::Request => "request",
        MessageTypes::Response => "response",
        MessageTypes::Notification => "notification",
        MessageTypes::Error => "error",
    }
}
fn content_acc(items: &[ContentBlock]) -> Value {
    json!(items
        .iter()
        .map(|c| {
            let mut as_ = vec![];
            if let Ok(x) = c.as_text_content() { as_.push(json!(["text", x])); }
            if let Ok(x) = c.as_image_content() { as_.push(json!(["image", x])); }
            if let Ok(x) = c.as_audio_content() { as_.push(json!(["audio", x])); }
            if let Ok(x) = c.as_resource_link() { as_.push(json!(["resource_link", x])); }
            if let Ok(x) = c.as_embedded_resource() { as_.push(json!(["resource", x])); }
            json!({"t": c.content_type(), "as": as_})
        })
        .collect::<Vec<_>>())
}

fn sub_kind(text: &str) -> u8 {
    let probe: Value = serde_json::from_str(text).unwrap_or(Value::Null);
    if probe.get("error").is_some() { 3 } else if probe.get("result").is_some() { 2 } else if probe.get("id").is_some() { 0 } else { 1 }
}

/// A standard message read as the schema's own union of its side and kind is the same message.
fn union_check(side: &str, v: &Value, bad: &mut Bad) {
    macro_rules! look {
        ($U:ty, |$u:ident| $id:expr) => {{
            let text = v.to_string();
            for way in 0..2 {
                let got = if way == 0 { serde_json::from_value::<$U>(v.clone()) } else { serde_json::from_str::<$U>(&text) };
                match got {
                    Err(e) => bad.req(false, &format!("the union {} refuses it: {e}", stringify!($U))),
                    Ok($u) => {
                        bad.req(v.get("method").and_then(Value::as_str) == Some($u.method()), &format!("method of the union {}", stringify!($U)));
                        let id: Option<&RequestId> = $id;
                        bad.req(v.get("id").cloned() == id.map(|i| serde_json::to_value(i).unwrap()), &format!("id of the union {}", stringify!($U)));
                        bad.req(serde_json::to_value(&$u).ok().as_ref() == Some(v), &format!("encoding of the union {}", stringify!($U)));
                    }
                }
            }
        }};
    }
    match (side, v.get("id").is_some()) {
        ("client", true) => look!(ClientRequest, |u| Some(u.request_id())),
        ("client", false) => look!(ClientNotification, |u| None),
        ("server", false) => look!(ServerNotification, |u| None),
        #[allow(unreachable_patterns)]
        _ => {}
    }
}

/// A reply taken apart as far as it goes: its members in the type that is open to all of them.
trait Opened: Sized {
    fn opened(self) -> Self;
}
impl Opened for ResultFromClient {
    fn opened(self) -> Self {
        self
    }
}
impl Opened for ServerResult {
    fn opened(self) -> Self {
        match self {
            ServerResult::InputRequiredResult(t) => GenericResult::from(t).into(),
            ServerResult::DiscoverResult(t) => GenericResult::from(t).into(),
            ServerResult::ListResourcesResult(t) => GenericResult::from(t).into(),
            ServerResult::ListResourceTemplatesResult(t) => GenericResult::from(t).into(),
            ServerResult::ReadResourceResult(t) => GenericResult::from(t).into(),
            ServerResult::SubscriptionsListenResult(t) => GenericResult::from(t).into(),
            ServerResult::ListPromptsResult(t) => GenericResult::from(t).into(),
            ServerResult::GetPromptResult(t) => GenericResult::from(t).into(),
            ServerResult::ListToolsResult(t) => GenericResult::from(t).into(),
            ServerResult::CallToolResult(t) => GenericResult::from(t).into(),
            ServerResult::CompleteResult(t) => GenericResult::from(t).into(),
            x => x,
        }
    }
}
macro_rules! side {
    ($m:ident, $Msg:ident, $Msgs:ident, $From:ident, $Froms:ident, $JReq:ident, $JNot:ident, $JRes:ident,
     $RF:ident, $NF:ident, $SF:ident, $Rq:ident, $Nt:ident, $Rs:ident,
     [$($rt:ident),*], [$($nt:ident),*], [$(($st:ident, $sty:ident)),*], $acc:ident, $reqname:ident, $notname:ident, $reqmake:ident, $notmake:ident, $reqnew:ident, $notnew:ident, $union:expr) => {
        pub mod $m {
            use super::*;

            pub fn decode(text: &str, dr: u64) -> R<$Msg, Value> {
                match dr {
                    0 => $Msg::from_str(text).map_err(rpc),
                    5 => match sub_kind(text) {
                        3 => JsonrpcErrorResponse::from_str(text).map($Msg::Error).map_err(rpc),
                        2 => $JRes::from_str(text).map($Msg::Response).map_err(rpc),
                        0 => $JReq::from_str(text).map($Msg::Request).map_err(rpc),
                        _ => $JNot::from_str(text).map($Msg::Notification).map_err(rpc),
                    },
                    r => serde_any::<$Msg>(text, r).map_err(|e| err(None, e, None)),
                }
            }
            pub fn req_name(r: &$JReq) -> &'static str {
                $reqname!(r)
            }
            pub fn rf_name(r: &$RF) -> &'static str {
                #[allow(unreachable_patterns)]
                match r { $($RF::$rt(_) => stringify!($rt),)* $RF::CustomRequest(_) => "custom", _ => "other" }
            }
            pub fn not_name(r: &$JNot) -> &'static str {
                $notname!(r)
            }
            pub fn nf_name(r: &$NF) -> &'static str {
                #[allow(unreachable_patterns)]
                match r { $($NF::$nt(_) => stringify!($nt),)* $NF::CustomNotification(_) => "custom", _ => "other" }
            }
            pub fn res_name(r: &$SF) -> &'static str {
                #[allow(unreachable_patterns)]
                match r { $($SF::$st(_) => stringify!($st),)* _ => "other" }
            }
            fn req_id(r: &$JReq) -> RequestId { r.request_id().clone() }

            pub fn rebuild(m: $Msg, er: u64) -> R<$Msg, RpcError> {
                match (er, m) {
                    (0 | 1 | 5 | 8, m) => Ok(m),
                    (2, m) => {
                        let id = m.request_id().cloned();
                        let f = match m {
                            $Msg::Request(r) => $From::from($RF::from(r)),
                            $Msg::Notification(n) => $From::from($NF::from(n)),
                            $Msg::Response(r) => $From::from(r.result),
                            $Msg::Error(e) => $From::from(e.error),
                        };
                        $Msg::from_message(f, id)
                    }
                    (er, $Msg::Request(r)) => {
                        let id = req_id(&r);
                        if er == 4 {
                            return Ok($Msg::from($JReq::new(id, $RF::from(r))));
                        }
                        if er == 7 && req_name(&r) == "custom" {
                            // as the plain JSON-RPC request it is
                            let j: JsonrpcRequest = serde_json::from_value(serde_json::to_value(&r).unwrap())
                                .map_err(|e| RpcError::internal_error().with_message(format!("plain: {e}")))?;
                            return Ok($Msg::from($JReq::new(id, $RF::CustomRequest(CustomRequest::from(j)))));
                        }
                        if er == 7 && $union && req_name(&r) != "custom" {
                            // through the schema's own union of the side's requests
                            let u: $Rq = serde_json::from_value(serde_json::to_value(&r).unwrap())
                                .map_err(|e| RpcError::internal_error().with_message(format!("union: {e}")))?;
                            let v = serde_json::to_value(&u).unwrap();
                            return serde_json::from_value(v).map_err(|e| RpcError::internal_error().with_message(format!("union back: {e}")));
                        }
                        $reqmake!($JReq, $Msg, r, er)
                    }
                    (er, $Msg::Notification(r)) => {
                        if er == 4 {
                            return Ok($Msg::from($JNot::new($NF::from(r))));
                        }
                        if er == 7 && not_name(&r) == "custom" {
                            let j: JsonrpcNotification = serde_json::from_value(serde_json::to_value(&r).unwrap())
                                .map_err(|e| RpcError::internal_error().with_message(format!("plain: {e}")))?;
                            return Ok($Msg::from($JNot::new($NF::CustomNotification(CustomNotification::from(j)))));
                        }
                        if er == 7 && $union && not_name(&r) != "custom" {
                            let u: $Nt = serde_json::from_value(serde_json::to_value(&r).unwrap())
                                .map_err(|e| RpcError::internal_error().with_message(format!("union: {e}")))?;
                            let v = serde_json::to_value(&u).unwrap();
                            return serde_json::from_value(v).map_err(|e| RpcError::internal_error().with_message(format!("union back: {e}")));
                        }
                        $notmake!($JNot, $Msg, r, er)
                    }
                    (er, $Msg::Response(r)) => {
                        let id = r.id;
                        if er == 7 {
                            return Ok($Msg::from($JRes::new(id, r.result.opened())));
                        }
                        match r.result {
                            $($SF::$st(_) => {
                                let t = <$sty>::try_from(r.result)?;
                                match er {
                                    3 => { let f: $From = t.into(); $Msg::from_message(f, Some(id)) }
                                    _ => Ok($Msg::from($JRes::new(id, t.into()))),
                                }
                            })*
                            #[allow(unreachable_patterns)]
                            x => Ok($Msg::from($JRes::new(id, x))),
                        }
                    }
                    (er, $Msg::Error(e)) => Ok($Msg::Error(match er {
                        3 => JsonrpcErrorResponse::new(e.error, e.id),
                        _ => e,
                    })),
                }
            }

            pub fn encode(m: &$Msg, er: u64) -> String {
                match er {
                    1 => m.to_string(),
                    5 => serde_json::to_value(m).unwrap().to_string(),
                    8 => match m {
                        $Msg::Request(x) => x.to_string(),
                        $Msg::Notification(x) => x.to_string(),
                        $Msg::Response(x) => x.to_string(),
                        $Msg::Error(x) => x.to_string(),
                    },
                    _ => serde_json::to_string(m).unwrap(),
                }
            }

            pub fn describe(m: &$Msg, deep: bool) -> (Value, Vec<String>) {
                let mut bad = Bad(vec![]);
                let preds = [m.is_request(), m.is_notification(), m.is_response(), m.is_error()];
                let kind = kind_of(m.message_type());
                let by_variant = match m {
                    $Msg::Request(_) => "request",
                    $Msg::Notification(_) => "notification",
                    $Msg::Response(_) => "response",
                    $Msg::Error(_) => "error",
                };
                bad.req(kind == by_variant, "message_type differs from the variant");
                bad.req(
                    preds == [kind == "request", kind == "notification", kind == "response", kind == "error"],
                    "classification predicates disagree with message_type",
                );
                let (method, variant) = match m {
                    $Msg::Request(r) => (Some(r.method().to_string()), req_name(r)),
                    $Msg::Notification(r) => (m.method().map(str::to_string), not_name(r)),
                    $Msg::Response(r) => (None, res_name(&r.result)),
                    $Msg::Error(_) => (None, "error"),
                };
                bad.req(m.method().map(str::to_string) == method, "message method differs from inner method");
                let mut acc = serde_json::Map::new();
                $acc(m, &mut acc);
                if deep {
                    let mm = m.clone();
                    if method.is_some() && variant != "custom" {
                        union_check(stringify!($m), &serde_json::to_value(m).unwrap(), &mut bad);
                    }
                    bad.req(mm.to_string() == serde_json::to_string(m).unwrap(), "Display differs from serde encoding of a clone");
                    let f: $From = match m.clone() {
                        $Msg::Request(r) => {
                            let x = $RF::from(r.clone());
                            bad.req(rf_name(&x) == variant, "id-less request is another operation");
                            bad.req(x.method() == r.method(), "id-less request method");
                            x.into()
                        }
                        $Msg::Notification(n) => {
                            let x = $NF::from(n.clone());
                            bad.req(nf_name(&x) == variant, "id-less notification is another operation");
                            bad.req(Some(x.method()) == m.method(), "id-less notification method");
                            x.into()
                        }
                        $Msg::Response(r) => r.result.into(),
                        $Msg::Error(e) => e.error.into(),
                    };
                    bad.req(kind_of(f.message_type()) == kind, "id-less form changes the kind");
                    bad.req([f.is_request(), f.is_notification(), f.is_response(), f.is_error()] == preds, "id-less form changes the predicates");
                    let with = $Msg::from_message(f.clone(), Some(RequestId::Integer(7)));
                    let without = $Msg::from_message(f, None);
                    bad.req(with.is_ok() == (kind != "notification"), "from_message with an id");
                    bad.req(without.is_ok() == (kind == "notification" || kind == "error"), "from_message without an id");
                    for e in [with.err(), without.err()].into_iter().flatten() {
                        bad.req(e.code == -32603, "from_message refusal code");
                    }
                    let c = |r: R<(), RpcError>, k: &str| match r {
                        Ok(()) => k == kind,
                        Err(e) => k != kind && e.code == -32603,
                    };
                    bad.req(c(m.clone().as_request().map(|_| ()), "request"), "as_request");
                    bad.req(c(m.clone().as_notification().map(|_| ()), "notification"), "as_notification");
                    bad.req(c(m.clone().as_response().map(|_| ()), "response"), "as_response");
                    bad.req(c(m.clone().as_error().map(|_| ()), "error"), "as_error");
                    if let $Msg::Request(r) = m {
                        bad.req(m.request_id() == Some(r.request_id()), "request_id differs between levels");
                        bad.req(r.jsonrpc() == m.jsonrpc(), "jsonrpc differs between levels");
                    }
                    if let Some(id) = m.request_id() {
                        let sid = RequestId::String(id.to_string());
                        let is_int = matches!(id, RequestId::Integer(_));
                        bad.req(id == &id.clone(), "request id not equal to its copy");
                        bad.req((id == &sid) != is_int, "string and integer request ids confused");
                        let mut h: HashMap<RequestId, u8> = HashMap::new();
                        h.insert(id.clone(), 1);
                        h.insert(sid, 2);
                        bad.req(h.len() == if is_int { 2 } else { 1 }, "request id hash table");
                        bad.req(h.contains_key(&id.clone()), "request id lookup");
                        for t in near_ids(id) {
                            bad.req(id != &t && &t != id, "request id equal to another one");
                            bad.req(h.insert(t, 3).is_none(), "request id stored as another one");
                        }
                        bad.req(h.get(id) == Some(if is_int { &1 } else { &2 }), "request id found as another one");
                    }
                }
                let mut names = vec![];
                if let $Msg::Response(r) = m {
                    // every result type the receiver could ask for
                    $(if <$sty>::try_from(r.result.clone()).is_ok() { names.push(stringify!($st)); })*
                }
                (
                    json!({"kind": kind, "id": m.request_id(), "jsonrpc": m.jsonrpc(), "method": method,
                           "variant": variant, "acc": acc, "as": names}),
                    bad.0,
                )
            }

            pub fn recv(v: &Value) -> Value {
                let m = match decode(s(v, "text"), n(v, "dr")) {
                    Ok(m) => m,
                    Err(e) => return e,
                };
                let (mut d, mut bad) = describe(&m, b(v, "deep"));
                let er = n(v, "er");
                match rebuild(m, er) {
                    Ok(m) => d["enc"] = json!(encode(&m, er)),
                    Err(e) => bad.push(format!("rebuilding refused: {}", e.message)),
                }
                d["bad"] = json!(bad);
                json!({"ok": d})
            }

            /// The received reply read as the result type the requester expects.
            pub fn typed(v: &Value) -> Value {
                let m = match decode(s(v, "text"), n(v, "dr")) {
                    Ok(m) => m,
                    Err(e) => return e,
                };
                let r = match m.as_response() {
                    Ok(r) => r,
                    Err(e) => return rpc(e),
                };
                match s(v, "ty") {
                    $(stringify!($st) => match <$sty>::try_from(r.result) {
                        Ok(t) => json!({"ok": {"id": r.id, "body": t}}),
                        Err(e) => rpc(e),
                    },)*
                    o => json!({"unsupported": o}),
                }
            }

            pub fn build(v: &Value) -> Value {
                let id = v.get("id").and_then(rid);
                let body = v["body"].clone();
                let er = n(v, "er");
                let ty = s(v, "ty");
                macro_rules! t {
                    () => {
                        match serde_json::from_value(body) {
                            Ok(t) => t,
                            Err(e) => return err(None, e.to_string(), None),
                        }
                    };
                }
                let m: R<$Msg, RpcError> = match (s(v, "kind"), ty) {
                    $(("request", stringify!($rt)) => match er {
                        0 | 1 | 5 => { let p = t!(); Ok($Msg::from($reqnew!($JReq, $rt, id.unwrap(), p))) }
                        2 | 3 => $Msg::from_message($From::from($RF::$rt(t!())), id),
                        _ => Ok($Msg::from($JReq::new(id.unwrap(), $RF::$rt(t!())))),
                    },)*
                    $(("notification", stringify!($nt)) => match er {
                        0 | 1 | 5 => { let p = t!(); Ok($Msg::from($notnew!($JNot, $nt, p))) }
                        2 | 3 => $Msg::from_message($From::from($NF::$nt(t!())), None),
                        _ => Ok($Msg::from($JNot::new($NF::$nt(t!())))),
                    },)*
                    $(("response", stringify!($st)) => {
                        let x: $sty = t!();
                        match er {
                            2 | 3 => { let f: $From = x.into(); $Msg::from_message(f, id) }
                            4 => $Msg::from_message($From::from($SF::from(x)), id),
                            _ => Ok($Msg::from($JRes::new(id.unwrap(), x.into()))),
                        }
                    })*
                    ("request", _) => {
                        let r = $RF::CustomRequest(t!());
                        if er % 2 == 0 { Ok($Msg::from($JReq::new(id.unwrap(), r))) } else { $Msg::from_message($From::from(r), id) }
                    }
                    ("notification", _) => {
                        let r = $NF::CustomNotification(t!());
                        if er % 2 == 0 { Ok($Msg::from($JNot::new(r))) } else { $Msg::from_message($From::from(r), id) }
                    }
                    ("response", _) => {
                        let r = $SF::Result(t!());
                        if er % 2 == 0 { Ok($Msg::from($JRes::new(id.unwrap(), r))) } else { $Msg::from_message($From::from(r), id) }
                    }
                    (_, _) => {
                        let e: RpcError = t!();
                        if er % 2 == 0 { Ok($Msg::Error(JsonrpcErrorResponse::new(e, id))) } else { $Msg::from_message($From::from(e), id) }
                    }
                };
                match m {
                    Ok(m) => json!({"ok": {"enc": encode(&m, er)}}),
                    Err(e) => rpc(e),
                }
            }

            fn idless(m: $Msg) -> $From {
                match m {
                    $Msg::Request(r) => $From::from($RF::from(r)),
                    $Msg::Notification(n) => $From::from($NF::from(n)),
                    $Msg::Response(r) => $From::from(r.result),
                    $Msg::Error(e) => $From::from(e.error),
                }
            }

            pub fn batch(v: &Value) -> Value {
                let ms: $Msgs = match serde_any(s(v, "text"), n(v, "dr")) {
                    Ok(m) => m,
                    Err(e) => return err(None, e, None),
                };
                let mut bad = Bad(vec![]);
                let is_batch = ms.is_batch();
                let inc = ms.includes_request();
                let er = n(v, "er");
                bad.req(ms.to_string() == serde_json::to_string(&ms).unwrap(), "batch Display differs from serde");
                let (one, many) = (ms.clone().as_single(), ms.clone().as_batch());
                bad.req(one.is_ok() == !is_batch, "as_single");
                bad.req(many.is_ok() == is_batch, "as_batch");
                let items: Vec<$Msg> = match ms { $Msgs::Single(m) => vec![m], $Msgs::Batch(b) => b };
                let kinds: Vec<_> = items.iter().map(|m| kind_of(m.message_type())).collect();
                let froms: Vec<$From> = items.iter().cloned().map(idless).collect();
                let fs = if is_batch { $Froms::from(froms) } else { $Froms::from(froms.into_iter().next().unwrap()) };
                bad.req(fs.is_batch() == is_batch, "id-less batch is_batch");
                bad.req(fs.includes_request() == inc, "id-less batch includes_request");
                bad.req(fs.clone().as_single().is_ok() == !is_batch, "id-less as_single");
                bad.req(fs.as_batch().is_ok() == is_batch, "id-less as_batch");
                let rebuilt: R<Vec<_>, _> = items.into_iter().map(|m| rebuild(m, er)).collect();
                let enc = match rebuilt {
                    Ok(v) if is_batch => $Msgs::from(v).to_string(),
                    Ok(v) => $Msgs::from(v.into_iter().next().unwrap()).to_string(),
                    Err(e) => return rpc(e),
                };
                json!({"ok": {"is_batch": is_batch, "inc": inc, "kinds": kinds, "enc": enc, "bad": bad.0}})
            }

            pub fn write(v: &Value) -> Value {
                if n(v, "many") == 1 {
                    return match serde_any::<$Msgs>(s(v, "text"), n(v, "dr")) {
                        Ok(m) => write_faulty(&m, v),
                        Err(e) => err(None, e, None),
                    };
                }
                match decode(s(v, "text"), n(v, "dr")) {
                    Ok(m) => write_faulty(&m, v),
                    Err(e) => e,
                }
            }
            pub fn read(v: &Value) -> Value {
                if n(v, "many") == 1 { read_faulty::<$Msgs>(&bytes_of(v), v) } else { read_faulty::<$Msg>(&bytes_of(v), v) }
            }
        }
    };
}

fn bytes_of(v: &Value) -> Vec<u8> {
    let mut b = s(v, "text").as_bytes().to_vec();
    if let Some(k) = v.get("cut").and_then(Value::as_u64) {
        b.truncate(k as usize);
    }
    b
}

#[allow(deprecated)]
fn acc_client(m: &ClientMessage, acc: &mut serde_json::Map<String, Value>) {
    acc.insert("is_init".into(), json!(m.is_initialize_request()));
    acc.insert("is_inited".into(), json!(m.is_initialized_notification()));
    if let ClientMessage::Request(r) = m {
        let rf = RequestFromClient::from(r.clone());
        acc.insert("is_init2".into(), json!(rf.is_initialize_request()));
        acc.insert("is_init3".into(), json!(MessageFromClient::from(rf).is_initialize_request()));
    }
    if let ClientMessage::Notification(x) = m {
        acc.insert("is_inited4".into(), json!(MessageFromClient::from(NotificationFromClient::from(x.clone())).is_initialized_notification()));
    }
    if let ClientMessage::Request(r) = m {
        let rf = RequestFromClient::from(r.clone());
        acc.insert("meta".into(), json!(rf.meta()));
        if let Some(mt) = rf.meta() {
            acc.insert("trace".into(), json!([mt.traceparent(), mt.tracestate(), mt.baggage()]));
        }
        if let ClientJsonrpcRequest::Standard(ClientRequest::CallToolRequest(c)) = r {
            acc.insert("tool_name".into(), json!(c.tool_name()));
        }
    }
}
fn acc_server(m: &ServerMessage, acc: &mut serde_json::Map<String, Value>) {
    if let ServerMessage::Request(ServerJsonrpcRequest::ElicitRequest { request, .. }) = m {
        acc.insert("elicit_message".into(), json!(request.params.message()));
    }
    if let ServerMessage::Response(r) = m {
        acc.insert("input_required".into(), json!(r.result.is_input_required()));
        acc.insert("complete".into(), json!(r.result.is_complete()));
        acc.insert("as_input_required".into(), json!(r.result.as_input_required().is_some()));
        if let Some(ir) = r.result.as_input_required() {
            if let Some(reqs) = &ir.input_requests {
                let mut m = serde_json::Map::new();
                let keys: Vec<&String> = reqs.keys().collect();
                for (k, q) in reqs.iter() {
                    let which: Vec<&str> = [
                        q.as_create_message().map(|_| "sampling/createMessage"),
                        q.as_list_roots().map(|_| "roots/list"),
                        q.as_elicit().map(|_| "elicitation/create"),
                    ].into_iter().flatten().collect();
                    m.insert(k.clone(), json!({"method": q.method(), "as": which, "get": reqs.get(k).is_some(),
                        "message": q.as_elicit().map(|e| e.params.message().to_string())}));
                }
                acc.insert("inputs".into(), json!({"each": m, "len": reqs.len(), "empty": reqs.is_empty(), "keys": keys,
                    "absent": reqs.get("\u{1}no such key").is_none()}));
            }
        }
        if let ServerResult::CallToolResult(c) = &r.result {
            acc.insert("content".into(), content_acc(&c.content));
        }
    }
}

macro_rules! req_name_c {
    ($r:expr) => {
        match $r {
            ClientJsonrpcRequest::Standard(x) => {
                #[allow(unreachable_patterns)]
                match x {
                    ClientRequest::DiscoverRequest(_) => "DiscoverRequest",
                    ClientRequest::ListResourcesRequest(_) => "ListResourcesRequest",
                    ClientRequest::ListResourceTemplatesRequest(_) => "ListResourceTemplatesRequest",
                    ClientRequest::ReadResourceRequest(_) => "ReadResourceRequest",
                    ClientRequest::SubscriptionsListenRequest(_) => "SubscriptionsListenRequest",
                    ClientRequest::ListPromptsRequest(_) => "ListPromptsRequest",
                    ClientRequest::GetPromptRequest(_) => "GetPromptRequest",
                    ClientRequest::ListToolsRequest(_) => "ListToolsRequest",
                    ClientRequest::CallToolRequest(_) => "CallToolRequest",
                    ClientRequest::CompleteRequest(_) => "CompleteRequest",
                    _ => "other",
                }
            }
            ClientJsonrpcRequest::Custom(_) => "custom",
        }
    };
}
macro_rules! req_make_c {
    ($J:ident, $M:ident, $r:expr, $er:expr) => {{
        macro_rules! go {
            ($x:expr, $T:ident) => {{
                let t = if $er == 3 { <$T>::new($x.id, $x.params) } else { $x };
                let j: $J = if $er == 6 { $J::Standard(ClientRequest::from(t)) } else { t.into() };
                Ok($M::from(j))
            }};
        }
        match $r {
            ClientJsonrpcRequest::Standard(x) => match x {
                ClientRequest::DiscoverRequest(t) => go!(t, DiscoverRequest),
                ClientRequest::ListResourcesRequest(t) => go!(t, ListResourcesRequest),
                ClientRequest::ListResourceTemplatesRequest(t) => go!(t, ListResourceTemplatesRequest),
                ClientRequest::ReadResourceRequest(t) => go!(t, ReadResourceRequest),
                ClientRequest::SubscriptionsListenRequest(t) => go!(t, SubscriptionsListenRequest),
                ClientRequest::ListPromptsRequest(t) => go!(t, ListPromptsRequest),
                ClientRequest::GetPromptRequest(t) => go!(t, GetPromptRequest),
                ClientRequest::ListToolsRequest(t) => go!(t, ListToolsRequest),
                ClientRequest::CallToolRequest(t) => go!(t, CallToolRequest),
                ClientRequest::CompleteRequest(t) => go!(t, CompleteRequest),
                #[allow(unreachable_patterns)]
                x => Ok($M::from($J::Standard(x))),
            },
            r => Ok($M::from(r)),
        }
    }};
}
macro_rules! req_new_c {
    ($J:ident, $T:ident, $id:expr, $p:expr) => { $J::from(<$T>::new($id, $p)) };
}
macro_rules! not_name_c {
    ($r:expr) => {
        #[allow(unreachable_patterns)]
        match $r {
            ClientJsonrpcNotification::CancelledNotification(_) => "CancelledNotification",
            ClientJsonrpcNotification::CustomNotification(_) => "custom",
            _ => "other",
        }
    };
}
macro_rules! not_make_c {
    ($J:ident, $M:ident, $r:expr, $er:expr) => {
        match $r {
            $J::CancelledNotification(t) => Ok($M::from($J::CancelledNotification(<CancelledNotification>::new(t.params)))),
            r => Ok($M::from(r)),
        }
    };
}
macro_rules! not_new_c {
    ($J:ident, $T:ident, $p:expr) => { $J::$T(<$T>::new($p)) };
}
macro_rules! req_name_s {
    ($r:expr) => {
        #[allow(unreachable_patterns)]
        match $r {
            ServerJsonrpcRequest::CreateMessageRequest { .. } => "CreateMessageRequest",
            ServerJsonrpcRequest::ListRootsRequest { .. } => "ListRootsRequest",
            ServerJsonrpcRequest::ElicitRequest { .. } => "ElicitRequest",
            ServerJsonrpcRequest::CustomRequest(_) => "custom",
            _ => "other",
        }
    };
}
macro_rules! req_make_s {
    ($J:ident, $M:ident, $r:expr, $er:expr) => {{
        let r = $r;
        let id = r.request_id().clone();
        Ok($M::from(match r {
            $J::CreateMessageRequest { request, .. } => $J::new(id, RequestFromServer::CreateMessageRequest(request.params)),
            $J::ListRootsRequest { request, .. } => $J::new(id, RequestFromServer::ListRootsRequest(request.params)),
            $J::ElicitRequest { request, .. } => $J::new(id, RequestFromServer::ElicitRequest(request.params)),
            r => r,
        }))
    }};
}
macro_rules! req_new_s {
    ($J:ident, $T:ident, $id:expr, $p:expr) => {
        $J::$T { id: $id, jsonrpc: "2.0".to_string(), request: <$T>::new($p) }
    };
}
macro_rules! not_name_s {
    ($r:expr) => {
        match $r {
            ServerJsonrpcNotification::Standard(x) => {
                #[allow(unreachable_patterns)]
                match x {
                    ServerNotification::CancelledNotification(_) => "CancelledNotification",
                    ServerNotification::ProgressNotification(_) => "ProgressNotification",
                    ServerNotification::ResourceListChangedNotification(_) => "ResourceListChangedNotification",
                    ServerNotification::SubscriptionsAcknowledgedNotification(_) => "SubscriptionsAcknowledgedNotification",
                    ServerNotification::ResourceUpdatedNotification(_) => "ResourceUpdatedNotification",
                    ServerNotification::PromptListChangedNotification(_) => "PromptListChangedNotification",
                    ServerNotification::ToolListChangedNotification(_) => "ToolListChangedNotification",
                    ServerNotification::LoggingMessageNotification(_) => "LoggingMessageNotification",
                    _ => "other",
                }
            }
            ServerJsonrpcNotification::Custom(_) => "custom",
        }
    };
}
macro_rules! not_make_s {
    ($J:ident, $M:ident, $r:expr, $er:expr) => {{
        macro_rules! go {
            ($x:expr, $T:ident) => { Ok($M::from($J::Standard(ServerNotification::from(<$T>::new($x.params))))) };
        }
        match $r {
            $J::Standard(x) => match x {
                ServerNotification::CancelledNotification(t) => go!(t, CancelledNotification),
                ServerNotification::ProgressNotification(t) => go!(t, ProgressNotification),
                ServerNotification::ResourceListChangedNotification(t) => go!(t, ResourceListChangedNotification),
                ServerNotification::SubscriptionsAcknowledgedNotification(t) => go!(t, SubscriptionsAcknowledgedNotification),
                ServerNotification::ResourceUpdatedNotification(t) => go!(t, ResourceUpdatedNotification),
                ServerNotification::PromptListChangedNotification(t) => go!(t, PromptListChangedNotification),
                ServerNotification::ToolListChangedNotification(t) => go!(t, ToolListChangedNotification),
                ServerNotification::LoggingMessageNotification(t) => go!(t, LoggingMessageNotification),
                #[allow(unreachable_patterns)]
                x => Ok($M::from($J::Standard(x))),
            },
            r => Ok($M::from(r)),
        }
    }};
}
macro_rules! not_new_s {
    ($J:ident, $T:ident, $p:expr) => { $J::Standard(ServerNotification::from(<$T>::new($p))) };
}

side!(
    client, ClientMessage, ClientMessages, MessageFromClient, MessagesFromClient, ClientJsonrpcRequest,
    ClientJsonrpcNotification, ClientJsonrpcResponse, RequestFromClient, NotificationFromClient, ResultFromClient,
    ClientRequest, ClientNotification, ClientResult,
    [DiscoverRequest, ListResourcesRequest, ListResourceTemplatesRequest, ReadResourceRequest,
     SubscriptionsListenRequest, ListPromptsRequest, GetPromptRequest, ListToolsRequest, CallToolRequest, CompleteRequest],
    [CancelledNotification],
    [(CreateMessageResult, CreateMessageResult), (ListRootsResult, ListRootsResult), (ElicitResult, ElicitResult),
     (Result, GenericResult)],
    acc_client, req_name_c, not_name_c, req_make_c, not_make_c, req_new_c, not_new_c, true
);
side!(
    server, ServerMessage, ServerMessages, MessageFromServer, MessagesFromServer, ServerJsonrpcRequest,
    ServerJsonrpcNotification, ServerJsonrpcResponse, RequestFromServer, NotificationFromServer, ServerResult,
    ClientRequest, ServerNotification, ServerResult,
    [CreateMessageRequest, ListRootsRequest, ElicitRequest],
    [CancelledNotification, ProgressNotification, ResourceListChangedNotification, SubscriptionsAcknowledgedNotification,
     ResourceUpdatedNotification, PromptListChangedNotification, ToolListChangedNotification, LoggingMessageNotification],
    [(InputRequiredResult, InputRequiredResult), (DiscoverResult, DiscoverResult),
     (ListResourcesResult, ListResourcesResult), (ListResourceTemplatesResult, ListResourceTemplatesResult),
     (ReadResourceResult, ReadResourceResult), (SubscriptionsListenResult, SubscriptionsListenResult),
     (ListPromptsResult, ListPromptsResult), (GetPromptResult, GetPromptResult), (ListToolsResult, ListToolsResult),
     (CallToolResult, CallToolResult), (CompleteResult, CompleteResult), (Result, GenericResult)],
    acc_server, req_name_s, not_name_s, req_make_s, not_make_s, req_new_s, not_new_s, false
);

fn mkerr(v: &Value) -> Value {
    let data = v.get("data").cloned();
    let msg = v.get("message").and_then(Value::as_str).map(str::to_string);
    let which = s(v, "which");
    macro_rules! pick {
        ($T:ident, $($n:ident),*) => {
            match which { $(stringify!($n) => Some($T::$n()),)* _ => None }
        };
    }
    let code_of = |w: &str| match w {
        "parse_error" => RpcErrorCodes::PARSE_ERROR,
        "invalid_request" => RpcErrorCodes::INVALID_REQUEST,
        "method_not_found" => RpcErrorCodes::METHOD_NOT_FOUND,
        "invalid_params" => RpcErrorCodes::INVALID_PARAMS,
        "header_mismatch" => RpcErrorCodes::HEADER_MISMATCH,
        "missing_required_client_capability" => RpcErrorCodes::MISSING_REQUIRED_CLIENT_CAPABILITY,
        "unsupported_protocol_version" => RpcErrorCodes::UNSUPPORTED_PROTOCOL_VERSION,
        _ => RpcErrorCodes::INTERNAL_ERROR,
    };
    let id = v.get("id").and_then(rid);
    match n(v, "route") {
        0 | 1 => {
            let mut e = if which == "header_mismatch" {
                RpcError::new(RpcErrorCodes::HEADER_MISMATCH, String::new(), None)
            } else {
                pick!(RpcError, method_not_found, invalid_params, invalid_request, internal_error, parse_error).unwrap()
            };
            if let Some(m) = msg { e = e.with_message(m); }
            if data.is_some() { e = e.with_data(data); }
            let text = e.to_string();
            let e2 = RpcError::from_str(&text).unwrap();
            if n(v, "route") == 0 {
                json!({"ok": {"enc": JsonrpcErrorResponse::new(e2, id).to_string()}})
            } else if s(v, "side") == "c" {
                match ClientMessage::from_message(MessageFromClient::from(e2), id) {
                    Ok(m) => json!({"ok": {"enc": m.to_string()}}),
                    Err(e) => rpc(e),
                }
            } else {
                match ServerMessage::from_message(MessageFromServer::from(e2), id) {
                    Ok(m) => json!({"ok": {"enc": m.to_string()}}),
                    Err(e) => rpc(e),
                }
            }
        }
        2 => match id {
            Some(id) => json!({"ok": {"enc": JsonrpcErrorResponse::create(Some(id), code_of(which), msg.unwrap_or_default(), data).to_string()}}),
            None => json!({"unsupported": "create without id"}),
        },
        3 => {
            let e = RpcError::new(code_of(which), msg.unwrap_or_default(), data);
            json!({"ok": {"enc": JsonrpcErrorResponse::new(e, id).to_string()}})
        }
        // the error has a type of its own
        5 => {
            let text = json!({"jsonrpc": "2.0", "id": v.get("id"), "error": {"code": code_of(which) as i64, "message": msg.unwrap_or_default(), "data": data}}).to_string();
            let e = match which {
                "unsupported_protocol_version" => serde_json::from_str::<UnsupportedProtocolVersionError>(&text).map(RpcError::from),
                "missing_required_client_capability" => serde_json::from_str::<MissingRequiredClientCapabilityError>(&text).map(RpcError::from),
                o => return json!({"unsupported": o}),
            };
            match e {
                Ok(e) => json!({"ok": {"enc": JsonrpcErrorResponse::new(e, id).to_string()}}),
                Err(e) => err(None, e.to_string(), None),
            }
        }
        _ => {
            let mut e = if n(v, "route") == 6 {
                let code = match which {
                    "connection_closed" => SdkErrorCodes::CONNECTION_CLOSED,
                    "request_timeout" => SdkErrorCodes::REQUEST_TIMEOUT,
                    "resource_not_found" => SdkErrorCodes::RESOURCE_NOT_FOUND,
                    "bad_request" => SdkErrorCodes::BAD_REQUEST,
                    "session_not_found" => SdkErrorCodes::SESSION_NOT_FOUND,
                    "invalid_request" => SdkErrorCodes::INVALID_REQUEST,
                    "method_not_found" => SdkErrorCodes::METHOD_NOT_FOUND,
                    "invalid_params" => SdkErrorCodes::INVALID_PARAMS,
                    "parse_error" => SdkErrorCodes::PARSE_ERROR,
                    "missing_required_client_capability" => SdkErrorCodes::MISSING_REQUIRED_CLIENT_CAPABILITY,
                "unsupported_protocol_version" => SdkErrorCodes::UNSUPPORTED_PROTOCOL_VERSION,
                    _ => SdkErrorCodes::INTERNAL_ERROR,
                };
                SdkError::new(code, msg.clone().unwrap_or_default(), data.clone())
            } else if which == "request_timeout" {
                SdkError::request_timeout(n(v, "timeout") as u128)
            } else {
                pick!(SdkError, connection_closed, session_not_found, invalid_request, method_not_found, invalid_params,
                      internal_error, parse_error, resource_not_found, bad_request).unwrap()
            };
            if let Some(m) = msg { e = e.with_message(&m); }
            if data.is_some() { e = e.with_data(data); }
            let text = serde_json::to_string(&e).unwrap();
            let back: SdkError = serde_json::from_str(&text).unwrap();
            let r = RpcError { code: back.code, data: back.data.clone(), message: back.message.clone() };
            json!({"ok": {"enc": JsonrpcErrorResponse::new(r, id).to_string(), "display": back.to_string()}})
        }
    }
}

fn toolerr(v: &Value) -> Value {
    let mk = || {
        let name = s(v, "name").to_string();
        let msg = v.get("message").and_then(Value::as_str).map(str::to_string);
        match s(v, "which") {
            "unknown" => CallToolError::unknown_tool(name),
            "invalid" => CallToolError::invalid_arguments(name, msg),
            "notask" => CallToolError::unsupported_task_augmented_tool_call(),
            "io" => CallToolError::new(std::io::Error::new(std::io::ErrorKind::Other, msg.unwrap_or_default())),
            "chain" => CallToolError::new(Chained::of(msg.unwrap_or_default(), &v["causes"])),
            _ => CallToolError::from_message(msg.unwrap_or_default()),
        }
    };
    let e = mk();
    let text = e.to_string();
    let causes = causes_of(&e);
    let id = rid(&v["id"]).unwrap();
    let res = match n(v, "route") {
        0 => CallToolResult::from(mk()),
        _ => CallToolResult::with_error(mk()),
    };
    let rp: RpcError = e.into();
    let m = ServerMessage::from_message(MessageFromServer::from(res), Some(id.clone())).unwrap();
    json!({"ok": {"text": text, "causes": causes, "enc": m.to_string(), "rpc": JsonrpcErrorResponse::new(rp, Some(id)).to_string()}})
}

fn generic(v: &Value) -> Value {
    match serde_any::<JsonrpcMessage>(s(v, "text"), n(v, "dr")) {
        Ok(m) => {
            let name = match &m {
                JsonrpcMessage::Request(_) => "request",
                JsonrpcMessage::Notification(_) => "notification",
                JsonrpcMessage::ResultResponse(_) => "response",
                JsonrpcMessage::ErrorResponse(_) => "error",
            };
            json!({"ok": {"kind": name, "enc": serde_json::to_string(&m).unwrap()}})
        }
        Err(e) => err(None, e, None),
    }
}

/// Capability gates. `who` names the side whose declared capabilities decide.
fn cap(v: &Value) -> Value {
    let show = |r: R<(), RpcError>| match r {
        Ok(()) => json!({"allow": true}),
        Err(e) => json!({"allow": false, "code": e.code, "message": e.message}),
    };
    macro_rules! gate {
        ($C:ident, $J:ident) => {{
            let c: $C = match serde_json::from_value(v["caps"].clone()) {
                Ok(c) => c,
                Err(e) => return err(None, e.to_string(), None),
            };
            if let Some(t) = v.get("text").and_then(Value::as_str) {
                return match $J::from_str(t) {
                    Ok(r) => json!({"ok": show(c.can_handle_request(&r))}),
                    Err(e) => rpc(e),
                };
            }
            json!({"ok": show(c.can_accept_notification(s(v, "method")))})
        }};
    }
    if s(v, "who") == "server" { gate!(ServerCapabilities, ClientJsonrpcRequest) } else { gate!(ClientCapabilities, ServerJsonrpcRequest) }
}

/// Per-request metadata through the builders, attached to a request, encoded.
fn meta(v: &Value) -> Value {
    let want = &v["meta"];
    let caps: ClientCapabilities = match serde_json::from_value(want["io.modelcontextprotocol/clientCapabilities"].clone()) {
        Ok(c) => c,
        Err(e) => return err(None, e.to_string(), None),
    };
    let mut m = RequestMetaObject::new(s(want, "io.modelcontextprotocol/protocolVersion"), caps);
    // the order in which the builders run must not matter: `order` is a permutation
    let empty = vec![];
    for step in v["order"].as_array().unwrap_or(&empty) {
        let k = step.as_str().unwrap_or("");
        let Some(x) = want.get(k) else { continue };
        m = match k {
            "io.modelcontextprotocol/clientInfo" => m.with_client_info(serde_json::from_value(x.clone()).unwrap()),
            "io.modelcontextprotocol/logLevel" => m.with_log_level(serde_json::from_value(x.clone()).unwrap()),
            "progressToken" => m.with_progress_token(serde_json::from_value(x.clone()).unwrap()),
            "traceparent" => m.with_traceparent(x.as_str().unwrap()),
            "tracestate" => m.with_tracestate(x.as_str().unwrap()),
            "baggage" => m.with_baggage(x.as_str().unwrap()),
            _ => m,
        };
    }
    let built = serde_json::to_value(&m).unwrap();
    let req = match client::decode(s(v, "text"), 0) {
        Ok(x) => x,
        Err(e) => return e,
    };
    let r = match req.as_request() {
        Ok(r) => r,
        Err(e) => return rpc(e),
    };
    let id = r.request_id().clone();
    let rf = RequestFromClient::from(r).with_meta(m);
    let seen = rf.meta().map(|m| json!(m));
    let tr = rf.meta().map(|m| json!([m.traceparent(), m.tracestate(), m.baggage()]));
    json!({"ok": {"built": built, "seen": seen, "trace": tr, "enc": ClientMessage::from(ClientJsonrpcRequest::new(id, rf)).to_string()}})
}

/// Answer a mid-request input demand: take the demand apart, gather the given answers, retry the request.
fn flow(v: &Value) -> Value {
    match s(v, "what") {
        // server side: build an input-required result with the helpers
        "demand" => {
            let mut ir: InputRequiredResult = serde_json::from_value(v["base"].clone()).unwrap();
            if let Some(q) = v.get("inputs") {
                match serde_json::from_value::<InputRequests>(q.clone()) {
                    Ok(q) => ir = ir.with_input_requests(q),
                    Err(e) => return err(None, e.to_string(), None),
                }
            }
            if let Some(st) = v.get("state").and_then(Value::as_str) { ir = ir.with_request_state(st); }
            let res: ServerResult = ir.into();
            let id = rid(&v["id"]).unwrap();
            let m = ServerMessage::from(ServerJsonrpcResponse::new(id, res));
            json!({"ok": {"enc": m.to_string()}})
        }
        // client side: retry `text` with `answers` (key -> [type, body]) and `state`
        "retry" => {
            let req = match client::decode(s(v, "text"), n(v, "dr")) {
                Ok(m) => match m.as_request() { Ok(r) => r, Err(e) => return rpc(e) },
                Err(e) => return e,
            };
            let mut ans = if n(v, "route") % 2 == 0 { InputResponses::new() } else { InputResponses::default() };
            bad_empty(&ans);
            let none = vec![];
            let list = v["answers"].as_array().unwrap_or(&none);
            for a in list {
                let key = a[0].as_str().unwrap().to_string();
                let body = a[2].clone();
                macro_rules! put { ($T:ident) => { match serde_json::from_value::<$T>(body) { Ok(t) => ans = ans.insert(key, t), Err(e) => return err(None, e.to_string(), None) } }; }
                match a[1].as_str().unwrap() {
                    "CreateMessageResult" => put!(CreateMessageResult),
                    "ListRootsResult" => put!(ListRootsResult),
                    _ => put!(ElicitResult),
                }
            }
            let len = ans.len();
            let state = v.get("state").and_then(Value::as_str).map(str::to_string);
            let id = rid(&v["id"]).unwrap();
            let earlier = || InputResponses::new().insert("an earlier key", ElicitResult { action: ElicitResultAction::Decline, content: None }).insert("0", ElicitResult { action: ElicitResultAction::Cancel, content: None });
            let given = v["earlier"] == json!(true);
            let mut rf = RequestFromClient::from(req);
            if given && n(v, "route") / 2 == 0 {
                rf = match rf.with_input_responses(earlier(), Some("an earlier state".into())) {
                    Ok(rf) => rf,
                    Err(e) => return rpc(e),
                };
            }
            let out = match n(v, "route") / 2 {
                0 => rf.with_input_responses(ans, state),
                _ => {
                    macro_rules! with { ($V:ident, $p:expr) => {{
                        let mut p = $p;
                        if given {
                            p = p.with_input_responses(earlier());
                            if state.is_some() { p = p.with_request_state("an earlier state"); }
                        }
                        let mut p = p.with_input_responses(ans);
                        if let Some(st) = state { p = p.with_request_state(st); }
                        Ok(RequestFromClient::$V(p))
                    }}; }
                    match rf {
                        RequestFromClient::CallToolRequest(p) => with!(CallToolRequest, p),
                        RequestFromClient::GetPromptRequest(p) => with!(GetPromptRequest, p),
                        RequestFromClient::ReadResourceRequest(p) => with!(ReadResourceRequest, p),
                        o => o.with_input_responses(ans, state),
                    }
                }
            };
            match out {
                Ok(rf) => json!({"ok": {"len": len, "enc": ClientMessage::from(ClientJsonrpcRequest::new(id, rf)).to_string()}}),
                Err(e) => rpc(e),
            }
        }
        // the parameters every retry shares, with `answers` and `state`
        "params" => {
            let mut p: InputResponseRequestParams = match serde_json::from_value(v["base"].clone()) {
                Ok(p) => p,
                Err(e) => return err(None, e.to_string(), None),
            };
            let a: InputResponses = match serde_json::from_value(v["answers"].clone()) {
                Ok(a) => a,
                Err(e) => return err(None, e.to_string(), None),
            };
            if v["earlier"] == json!(true) {
                p = p.with_input_responses(InputResponses::new().insert("an earlier key", ElicitResult { action: ElicitResultAction::Decline, content: None }));
                if v.get("state").is_some() { p = p.with_request_state("an earlier state"); }
            }
            if let Some(st) = v.get("state").and_then(Value::as_str) { p = p.with_request_state(st); }
            p = p.with_input_responses(a);
            json!({"ok": {"enc": serde_json::to_string(&p).unwrap()}})
        }
        // the per-operation response types, which hold either a demand or the final result
        "op_response" => {
            let text = s(v, "text");
            macro_rules! go { ($T:ident, $R:ident) => {
                match serde_any::<$T>(text, n(v, "dr")) {
                    Ok(r) => {
                        let which = match &r.result { $R::InputRequiredResult(_) => "InputRequiredResult", _ => "final" };
                        json!({"ok": {"which": which, "enc": serde_json::to_string(&r).unwrap()}})
                    }
                    Err(e) => err(None, e, None),
                }
            }; }
            match s(v, "ty") {
                "CallTool" => go!(CallToolResultResponse, CallToolResultResponseResult),
                "GetPrompt" => go!(GetPromptResultResponse, GetPromptResultResponseResult),
                _ => go!(ReadResourceResultResponse, ReadResourceResultResponseResult),
            }
        }
        o => json!({"unsupported": o}),
    }
}
fn bad_empty(a: &InputResponses) {
    assert!(a.is_empty() && a.len() == 0, "fresh answer set is not empty");
}

pub fn op(v: &Value) -> Value {
    let c = s(v, "side") == "c";
    match s(v, "op") {
        "recv" => if c { client::recv(v) } else { server::recv(v) },
        "typed" => if c { client::typed(v) } else { server::typed(v) },
        "build" => if c { client::build(v) } else { server::build(v) },
        "batch" => if c { client::batch(v) } else { server::batch(v) },
        "write" => if c { client::write(v) } else { server::write(v) },
        "read" => if c { client::read(v) } else { server::read(v) },
        "mkerr" => mkerr(v),
        "toolerr" => toolerr(v),
        "tie" => tie(v),
        "tie_make" => tie_make(v),
        "generic" => generic(v),
        "cap" => cap(v),
        "meta" => meta(v),
        "flow" => flow(v),
        // an error read as the type it has of its own
        "typederr" => {
            let text = s(v, "text");
            let back = |x: R<String, serde_json::Error>| match x {
                Ok(t) => json!({"ok": {"enc": t}}),
                Err(e) => err(None, e.to_string(), None),
            };
            match s(v, "which") {
                "unsupported_protocol_version" => back(serde_json::from_str::<UnsupportedProtocolVersionError>(text).and_then(|e| serde_json::to_string(&e))),
                _ => back(serde_json::from_str::<MissingRequiredClientCapabilityError>(text).and_then(|e| serde_json::to_string(&e))),
            }
        }
        "proto" => crate::common::proto(v, LATEST_PROTOCOL_VERSION),
        o => json!({"unsupported": o}),
    }
}

// ---- standing interests: what a notification is about, read and made through the typed forms ----

fn lookup(open: &Value, id: Option<&RequestId>) -> Value {
    let mut h: HashMap<RequestId, usize> = HashMap::new();
    for (i, x) in open.as_array().into_iter().flatten().enumerate() {
        if let Some(x) = rid(x) { h.insert(x, i); }
    }
    let found = id.and_then(|i| h.get(i));
    // searched one by one, the answer is the same
    let Some(id) = id else { return Value::Null };
    let mut one: Option<&usize> = None;
    for (x, i) in &h {
        if <&RequestId as PartialEq<RequestId>>::eq(&id, x) { one = Some(i); }
    }
    if one != found {
        return json!("found differently when searched one by one");
    }
    json!(found)
}
fn filter(f: &SubscriptionFilter) -> Value {
    json!({"tools": f.tools_list_changed == Some(true), "prompts": f.prompts_list_changed == Some(true),
           "resources": f.resources_list_changed == Some(true), "uris": f.resource_subscriptions})
}
fn tie(v: &Value) -> Value {
    let t = s(v, "text");
    let at = |i: Option<&RequestId>| lookup(&v["open"], i);
    fn sub(m: &Option<NotificationMetaObject>) -> Option<&RequestId> { m.as_ref().and_then(|m| m.io_modelcontextprotocol_subscription_id.as_ref()) }
    let listed = |w: &str, p: &Option<NotificationParams>| {
        let i = p.as_ref().and_then(|p| sub(&p.meta));
        json!({"what": w, "sub": i, "at": at(i)})
    };
    let o = if s(v, "side") == "c" {
        match ClientMessage::from_str(t) {
            Err(e) => return rpc(e),
            Ok(ClientMessage::Request(r)) => {
                let id = r.request_id().clone();
                let f = RequestFromClient::from(r);
                let token = f.meta().and_then(|m| m.progress_token.clone());
                match f {
                    RequestFromClient::SubscriptionsListenRequest(x) => json!({"what": "listen", "id": id, "at": at(Some(&id)), "filter": filter(&x.notifications), "token": token}),
                    RequestFromClient::CustomRequest(_) => json!({"what": "other"}),
                    _ => json!({"what": "call", "id": id, "token": token}),
                }
            }
            Ok(ClientMessage::Notification(n)) => match NotificationFromClient::from(n) {
                NotificationFromClient::CancelledNotification(x) => json!({"what": "cancelled", "id": x.request_id, "at": at(Some(&x.request_id))}),
                _ => json!({"what": "other"}),
            },
            _ => json!({"what": "other"}),
        }
    } else {
        match ServerMessage::from_str(t) {
            Err(e) => return rpc(e),
            Ok(ServerMessage::Notification(n)) => match NotificationFromServer::from(n) {
                NotificationFromServer::ProgressNotification(x) => json!({"what": "progress", "token": x.progress_token, "progress": x.progress, "total": x.total, "sub": sub(&x.meta)}),
                NotificationFromServer::ResourceUpdatedNotification(x) => json!({"what": "updated", "uri": x.uri, "sub": sub(&x.meta), "at": at(sub(&x.meta))}),
                NotificationFromServer::ToolListChangedNotification(x) => listed("tools", &x),
                NotificationFromServer::PromptListChangedNotification(x) => listed("prompts", &x),
                NotificationFromServer::ResourceListChangedNotification(x) => listed("resources", &x),
                NotificationFromServer::SubscriptionsAcknowledgedNotification(x) => json!({"what": "ack", "sub": sub(&x.meta), "at": at(sub(&x.meta)), "filter": filter(&x.notifications)}),
                _ => json!({"what": "other"}),
            },
            Ok(ServerMessage::Response(r)) => match SubscriptionsListenResult::try_from(r.result) {
                Ok(x) => {
                    let i = &x.meta.io_modelcontextprotocol_subscription_id;
                    json!({"what": "ended", "id": r.id, "sub": i, "same": *i == r.id, "at": at(Some(i)), "at_id": at(Some(&r.id))})
                }
                Err(_) => json!({"what": "result", "at": at(Some(&r.id))}),
            },
            _ => json!({"what": "other"}),
        }
    };
    json!({"ok": o})
}
fn tie_make(v: &Value) -> Value {
    fn sv(t: NotificationFromServer) -> R<String, RpcError> {
        Ok(ServerMessage::from_message(MessageFromServer::from(t), None)?.to_string())
    }
    let extra = v.get("extra").and_then(Value::as_object).cloned();
    let meta = rid(&v["sub"]).map(|i| NotificationMetaObject { io_modelcontextprotocol_subscription_id: Some(i), extra });
    let np = || meta.clone().map(|m| NotificationParams { meta: Some(m) });
    let uri = s(v, "uri").to_string();
    let r = match s(v, "what") {
        "progress" => sv(NotificationFromServer::ProgressNotification(ProgressNotificationParams {
            message: None, meta: None, progress: v["progress"].as_f64().unwrap(), total: v["total"].as_f64(),
            progress_token: match &v["token"] {
                Value::String(x) => ProgressToken::String(x.clone()),
                x => ProgressToken::from(x.as_i64().unwrap()),
            },
        })),
        "updated" => sv(NotificationFromServer::ResourceUpdatedNotification(ResourceUpdatedNotificationParams { meta, uri })),
        "tools" => sv(NotificationFromServer::ToolListChangedNotification(np())),
        "prompts" => sv(NotificationFromServer::PromptListChangedNotification(np())),
        "resources" => sv(NotificationFromServer::ResourceListChangedNotification(np())),
        "ack" => {
            let f = &v["filter"];
            let b = |k: &str| f[k].as_bool();
            sv(NotificationFromServer::SubscriptionsAcknowledgedNotification(SubscriptionsAcknowledgedNotificationParams {
                meta,
                notifications: SubscriptionFilter {
                    prompts_list_changed: b("promptsListChanged"), resources_list_changed: b("resourcesListChanged"), tools_list_changed: b("toolsListChanged"),
                    resource_subscriptions: serde_json::from_value(f["resourceSubscriptions"].clone()).unwrap_or_default(),
                },
            }))
        }
        "ended" => {
            let id = rid(&v["id"]).unwrap();
            let res = SubscriptionsListenResult {
                meta: SubscriptionsListenResultMetaObject { io_modelcontextprotocol_server_info: None, io_modelcontextprotocol_subscription_id: id.clone(), extra: v.get("extra").and_then(Value::as_object).cloned() },
                result_type: "complete".into(),
            };
            match n(v, "route") {
                0 => Ok(serde_json::to_string(&SubscriptionsListenResultResponse::new(id, res)).unwrap()),
                _ => ServerMessage::from_message(MessageFromServer::from(ServerResult::from(res)), Some(id)).map(|m| m.to_string()),
            }
        }
        "cancelled" => Ok(serde_json::to_string(&CancelledNotification::new(CancelledNotificationParams { meta: None, reason: v["reason"].as_str().map(str::to_string), request_id: rid(&v["id"]).unwrap() })).unwrap()),
        w => return json!({"unsupported": w}),
    };
    match r {
        Ok(e) => json!({"ok": {"enc": e}}),
        Err(e) => rpc(e),
    }
}
