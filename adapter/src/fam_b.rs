//! Adapter for the 2025-11-25 API.
use crate::common::*;
use rust_mcp_schema::mcp_2025_11_25 as mcp;

use mcp::schema_utils::*;
use mcp::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::result::Result as R;
use std::str::FromStr;

fn rpc(e: RpcError) -> Value {
    err(Some(e.code), e.message, e.data)
}
/// Ids that are almost this one.
fn near_ids(id: &RequestId) -> Vec<RequestId> {
    near(&serde_json::to_value(id).unwrap()).into_iter().map(|x| match x {
        Value::String(s) => RequestId::String(s),
        n => RequestId::Integer(n.as_i64().unwrap()),
    }).collect()
}
fn rid(v: &Value) -> Option<RequestId> {
    serde_json::from_value(v.clone()).ok()
}
fn kind_of(t: MessageTypes) -> &'static str {
    match t {
        MessageTypes::Request => "request",
        MessageTypes::Response => "response",
        MessageTypes::Notification => "notification",
        MessageTypes::Error => "error",
    }
}
fn content_acc(items: &[ContentBlock]) -> Value {
    json!(items
        .iter()
        .map(|c| {
            let mut as_ = vec![];
            if let Ok(x) = c.as_text_content() { as_.push(json!(["text", x])); }
            if let Ok(x) = c.as_image_content() { as_.push(json!(["image", x])); }
            if let Ok(x) = c.as_audio_content() { as_.push(json!(["audio", x])); }
            if let Ok(x) = c.as_resource_link() { as_.push(json!(["resource_link", x])); }
            if let Ok(x) = c.as_embedded_resource() { as_.push(json!(["resource", x])); }
            json!({"t": c.content_type(), "as": as_})
        })
        .collect::<Vec<_>>())
}

fn sub_kind(text: &str) -> u8 {
    let probe: Value = serde_json::from_str(text).unwrap_or(Value::Null);
    if probe.get("error").is_some() { 3 } else if probe.get("result").is_some() { 2 } else if probe.get("id").is_some() { 0 } else { 1 }
}

/// A standard message read as the schema's own union of its side and kind is the same message.
fn union_check(side: &str, v: &Value, bad: &mut Bad) {
    macro_rules! look {
        ($U:ty, |$u:ident| $id:expr) => {{
            let text = v.to_string();
            for way in 0..2 {
                let got = if way == 0 { serde_json::from_value::<$U>(v.clone()) } else { serde_json::from_str::<$U>(&text) };
                match got {
                    Err(e) => bad.req(false, &format!("the union {} refuses it: {e}", stringify!($U))),
                    Ok($u) => {
                        bad.req(v.get("method").and_then(Value::as_str) == Some($u.method()), &format!("method of the union {}", stringify!($U)));
                        let id: Option<&RequestId> = $id;
                        bad.req(v.get("id").cloned() == id.map(|i| serde_json::to_value(i).unwrap()), &format!("id of the union {}", stringify!($U)));
                        bad.req(serde_json::to_value(&$u).ok().as_ref() == Some(v), &format!("encoding of the union {}", stringify!($U)));
                    }
                }
            }
        }};
    }
    match (side, v.get("id").is_some()) {
        ("client", true) => look!(ClientRequest, |u| Some(u.request_id())),
        ("client", false) => look!(ClientNotification, |u| None),
        ("server", true) => look!(ServerRequest, |u| Some(u.request_id())),
        ("server", false) => look!(ServerNotification, |u| None),
        #[allow(unreachable_patterns)]
        _ => {}
    }
}

/// A reply taken apart as far as it goes: its members in the type that is open to all of them.
trait Opened: Sized {
    fn opened(self) -> Self;
}
impl Opened for ResultFromClient {
    fn opened(self) -> Self {
        match self {
            ResultFromClient::GetTaskResult(t) => GenericResult::from(t).into(),
            ResultFromClient::GetTaskPayloadResult(t) => GenericResult::from(t).into(),
            ResultFromClient::CancelTaskResult(t) => GenericResult::from(t).into(),
            ResultFromClient::ListTasksResult(t) => GenericResult::from(t).into(),
            x => x,
        }
    }
}
impl Opened for ResultFromServer {
    fn opened(self) -> Self {
        match self {
            ResultFromServer::InitializeResult(t) => GenericResult::from(t).into(),
            ResultFromServer::ListResourcesResult(t) => GenericResult::from(t).into(),
            ResultFromServer::ListResourceTemplatesResult(t) => GenericResult::from(t).into(),
            ResultFromServer::ReadResourceResult(t) => GenericResult::from(t).into(),
            ResultFromServer::ListPromptsResult(t) => GenericResult::from(t).into(),
            ResultFromServer::GetPromptResult(t) => GenericResult::from(t).into(),
            ResultFromServer::ListToolsResult(t) => GenericResult::from(t).into(),
            ResultFromServer::CallToolResult(t) => GenericResult::from(t).into(),
            ResultFromServer::GetTaskResult(t) => GenericResult::from(t).into(),
            ResultFromServer::GetTaskPayloadResult(t) => GenericResult::from(t).into(),
            ResultFromServer::CancelTaskResult(t) => GenericResult::from(t).into(),
            ResultFromServer::ListTasksResult(t) => GenericResult::from(t).into(),
            ResultFromServer::CompleteResult(t) => GenericResult::from(t).into(),
            x => x,
        }
    }
}
macro_rules! side {
    ($m:ident, $Msg:ident, $Msgs:ident, $From:ident, $Froms:ident, $JReq:ident, $JNot:ident, $JRes:ident,
     $RF:ident, $NF:ident, $SF:ident, $Rq:ident, $Nt:ident, $Rs:ident,
     [$($rt:ident),*], [$($nt:ident),*], [$(($st:ident, $sty:ident)),*], $acc:ident) => {
        pub mod $m {
            use super::*;

            pub fn decode(text: &str, dr: u64) -> R<$Msg, Value> {
                match dr {
                    0 => $Msg::from_str(text).map_err(rpc),
                    5 => match sub_kind(text) {
                        3 => JsonrpcErrorResponse::from_str(text).map($Msg::Error).map_err(rpc),
                        2 => $JRes::from_str(text).map($Msg::Response).map_err(rpc),
                        0 => $JReq::from_str(text).map($Msg::Request).map_err(rpc),
                        _ => $JNot::from_str(text).map($Msg::Notification).map_err(rpc),
                    },
                    r => serde_any::<$Msg>(text, r).map_err(|e| err(None, e, None)),
                }
            }
            pub fn req_name(r: &$JReq) -> &'static str {
                #[allow(unreachable_patterns)]
                match r { $($JReq::$rt(_) => stringify!($rt),)* $JReq::CustomRequest(_) => "custom", _ => "other" }
            }
            pub fn rf_name(r: &$RF) -> &'static str {
                #[allow(unreachable_patterns)]
                match r { $($RF::$rt(_) => stringify!($rt),)* $RF::CustomRequest(_) => "custom", _ => "other" }
            }
            pub fn not_name(r: &$JNot) -> &'static str {
                #[allow(unreachable_patterns)]
                match r { $($JNot::$nt(_) => stringify!($nt),)* $JNot::CustomNotification(_) => "custom", _ => "other" }
            }
            pub fn nf_name(r: &$NF) -> &'static str {
                #[allow(unreachable_patterns)]
                match r { $($NF::$nt(_) => stringify!($nt),)* $NF::CustomNotification(_) => "custom", _ => "other" }
            }
            pub fn res_name(r: &$SF) -> &'static str {
                #[allow(unreachable_patterns)]
                match r { $($SF::$st(_) => stringify!($st),)* _ => "other" }
            }
            fn req_id(r: &$JReq) -> RequestId { r.request_id().clone() }

            pub fn rebuild(m: $Msg, er: u64) -> R<$Msg, RpcError> {
                match (er, m) {
                    (0 | 1 | 5 | 8, m) => Ok(m),
                    (2, m) => {
                        let id = m.request_id().cloned();
                        let f = match m {
                            $Msg::Request(r) => $From::from($RF::from(r)),
                            $Msg::Notification(n) => $From::from($NF::from(n)),
                            $Msg::Response(r) => $From::from(r.result),
                            $Msg::Error(e) => $From::from(e.error),
                        };
                        $Msg::from_message(f, id)
                    }
                    (er, $Msg::Request(r)) => {
                        let id = req_id(&r);
                        if er == 4 {
                            return Ok($Msg::from($JReq::new(id, $RF::from(r))));
                        }
                        if er == 7 && req_name(&r) == "custom" {
                            // as the plain JSON-RPC request it is
                            let j: JsonrpcRequest = serde_json::from_value(serde_json::to_value(&r).unwrap())
                                .map_err(|e| RpcError::internal_error().with_message(format!("plain: {e}")))?;
                            return Ok($Msg::from($JReq::new(id, $RF::CustomRequest(CustomRequest::from(j)))));
                        }
                        if er == 7 && req_name(&r) != "custom" {
                            // through the schema's own union of the side's requests
                            let u: $Rq = serde_json::from_value(serde_json::to_value(&r).unwrap())
                                .map_err(|e| RpcError::internal_error().with_message(format!("union: {e}")))?;
                            let v = serde_json::to_value(&u).unwrap();
                            return serde_json::from_value(v).map_err(|e| RpcError::internal_error().with_message(format!("union back: {e}")));
                        }
                        match r {
                            $($JReq::$rt(t) => {
                                let t = if er == 3 { <$rt>::new(id, t.params) } else { t };
                                let j: $JReq = t.into();
                                Ok($Msg::from(j))
                            })*
                            #[allow(unreachable_patterns)]
                            r => Ok($Msg::from(r)),
                        }
                    }
                    (er, $Msg::Notification(r)) => {
                        if er == 4 {
                            return Ok($Msg::from($JNot::new($NF::from(r))));
                        }
                        if er == 7 && not_name(&r) == "custom" {
                            let j: JsonrpcNotification = serde_json::from_value(serde_json::to_value(&r).unwrap())
                                .map_err(|e| RpcError::internal_error().with_message(format!("plain: {e}")))?;
                            return Ok($Msg::from($JNot::new($NF::CustomNotification(CustomNotification::from(j)))));
                        }
                        if er == 7 && not_name(&r) != "custom" {
                            let u: $Nt = serde_json::from_value(serde_json::to_value(&r).unwrap())
                                .map_err(|e| RpcError::internal_error().with_message(format!("union: {e}")))?;
                            let v = serde_json::to_value(&u).unwrap();
                            return serde_json::from_value(v).map_err(|e| RpcError::internal_error().with_message(format!("union back: {e}")));
                        }
                        match r {
                            $($JNot::$nt(t) => Ok($Msg::from($JNot::$nt(<$nt>::new(t.params)))),)*
                            #[allow(unreachable_patterns)]
                            r => Ok($Msg::from(r)),
                        }
                    }
                    (er, $Msg::Response(r)) => {
                        let id = r.id;
                        if er == 7 {
                            return Ok($Msg::from($JRes::new(id, r.result.opened())));
                        }
                        match r.result {
                            $($SF::$st(_) => {
                                let t = <$sty>::try_from(r.result)?;
                                match er {
                                    3 => { let f: $From = t.into(); $Msg::from_message(f, Some(id)) }
                                    _ => Ok($Msg::from($JRes::new(id, t.into()))),
                                }
                            })*
                            #[allow(unreachable_patterns)]
                            x => Ok($Msg::from($JRes::new(id, x))),
                        }
                    }
                    (er, $Msg::Error(e)) => Ok($Msg::Error(match er {
                        3 => JsonrpcErrorResponse::new(e.error, e.id),
                        _ => e,
                    })),
                }
            }

            pub fn encode(m: &$Msg, er: u64) -> String {
                match er {
                    1 => m.to_string(),
                    5 => serde_json::to_value(m).unwrap().to_string(),
                    8 => match m {
                        $Msg::Request(x) => x.to_string(),
                        $Msg::Notification(x) => x.to_string(),
                        $Msg::Response(x) => x.to_string(),
                        $Msg::Error(x) => x.to_string(),
                    },
                    _ => serde_json::to_string(m).unwrap(),
                }
            }

            pub fn describe(m: &$Msg, deep: bool) -> (Value, Vec<String>) {
                let mut bad = Bad(vec![]);
                let preds = [m.is_request(), m.is_notification(), m.is_response(), m.is_error()];
                let kind = kind_of(m.message_type());
                let by_variant = match m {
                    $Msg::Request(_) => "request",
                    $Msg::Notification(_) => "notification",
                    $Msg::Response(_) => "response",
                    $Msg::Error(_) => "error",
                };
                bad.req(kind == by_variant, "message_type differs from the variant");
                bad.req(
                    preds == [kind == "request", kind == "notification", kind == "response", kind == "error"],
                    "classification predicates disagree with message_type",
                );
                let (method, variant) = match m {
                    $Msg::Request(r) => (Some(r.method().to_string()), req_name(r)),
                    $Msg::Notification(r) => (m.method().map(str::to_string), not_name(r)),
                    $Msg::Response(r) => (None, res_name(&r.result)),
                    $Msg::Error(_) => (None, "error"),
                };
                bad.req(m.method().map(str::to_string) == method, "message method differs from inner method");
                let mut acc = serde_json::Map::new();
                $acc(m, &mut acc);
                match m {
                    $Msg::Request(r) => { acc.insert("augmented".into(), json!(r.is_task_augmented())); }
                    _ => {}
                }
                if deep {
                    let mm = m.clone();
                    if method.is_some() && variant != "custom" {
                        union_check(stringify!($m), &serde_json::to_value(m).unwrap(), &mut bad);
                    }
                    bad.req(mm.to_string() == serde_json::to_string(m).unwrap(), "Display differs from serde encoding of a clone");
                    let f: $From = match m.clone() {
                        $Msg::Request(r) => {
                            let x = $RF::from(r.clone());
                            bad.req(rf_name(&x) == variant, "id-less request is another operation");
                            bad.req(x.method() == r.method(), "id-less request method");
                            x.into()
                        }
                        $Msg::Notification(n) => {
                            let x = $NF::from(n.clone());
                            bad.req(nf_name(&x) == variant, "id-less notification is another operation");
                            bad.req(Some(x.method()) == m.method(), "id-less notification method");
                            x.into()
                        }
                        $Msg::Response(r) => r.result.into(),
                        $Msg::Error(e) => e.error.into(),
                    };
                    bad.req(kind_of(f.message_type()) == kind, "id-less form changes the kind");
                    bad.req([f.is_request(), f.is_notification(), f.is_response(), f.is_error()] == preds, "id-less form changes the predicates");
                    let with = $Msg::from_message(f.clone(), Some(RequestId::Integer(7)));
                    let without = $Msg::from_message(f, None);
                    bad.req(with.is_ok() == (kind != "notification"), "from_message with an id");
                    bad.req(without.is_ok() == (kind == "notification" || kind == "error"), "from_message without an id");
                    for e in [with.err(), without.err()].into_iter().flatten() {
                        bad.req(e.code == -32603, "from_message refusal code");
                    }
                    let c = |r: R<(), RpcError>, k: &str| match r {
                        Ok(()) => k == kind,
                        Err(e) => k != kind && e.code == -32603,
                    };
                    bad.req(c(m.clone().as_request().map(|_| ()), "request"), "as_request");
                    bad.req(c(m.clone().as_notification().map(|_| ()), "notification"), "as_notification");
                    bad.req(c(m.clone().as_response().map(|_| ()), "response"), "as_response");
                    bad.req(c(m.clone().as_error().map(|_| ()), "error"), "as_error");
                    if let $Msg::Response(r) = m {
                        // the result held as the payload of a task, and as the open result, is still all of it
                        let all = serde_json::to_value(&r.result).unwrap();
                        if let Ok(p) = GetTaskPayloadResult::try_from(r.result.clone()) {
                            let held = $SF::from(p);
                            for (what, got) in [
                                ("payload", GetTaskPayloadResult::try_from(held.clone()).map(|x| serde_json::to_value(x).unwrap())),
                                ("open", GenericResult::try_from(held).map(|x| serde_json::to_value(x).unwrap())),
                            ] {
                                bad.req(got.ok().as_ref() == Some(&all), &format!("task payload taken as {what} result"));
                            }
                        }
                        if let Ok(g) = serde_json::from_value::<GenericResult>(all.clone()) {
                            let held = $SF::from(g);
                            let got = GenericResult::try_from(held).map(|x| serde_json::to_value(x).unwrap());
                            bad.req(got.ok().as_ref() == Some(&all), "open result taken as such");
                        }
                    }
                    if let $Msg::Request(r) = m {
                        bad.req(m.request_id() == Some(r.request_id()), "request_id differs between levels");
                        bad.req(r.jsonrpc() == m.jsonrpc(), "jsonrpc differs between levels");
                    }
                    if let Some(id) = m.request_id() {
                        let sid = RequestId::String(id.to_string());
                        let is_int = matches!(id, RequestId::Integer(_));
                        bad.req(id == &id.clone(), "request id not equal to its copy");
                        bad.req((id == &sid) != is_int, "string and integer request ids confused");
                        let mut h: HashMap<RequestId, u8> = HashMap::new();
                        h.insert(id.clone(), 1);
                        h.insert(sid, 2);
                        bad.req(h.len() == if is_int { 2 } else { 1 }, "request id hash table");
                        bad.req(h.contains_key(&id.clone()), "request id lookup");
                        for t in near_ids(id) {
                            bad.req(id != &t && &t != id, "request id equal to another one");
                            bad.req(h.insert(t, 3).is_none(), "request id stored as another one");
                        }
                        bad.req(h.get(id) == Some(if is_int { &1 } else { &2 }), "request id found as another one");
                    }
                }
                let mut names = vec![];
                if let $Msg::Response(r) = m {
                    // every result type the receiver could ask for
                    $(if <$sty>::try_from(r.result.clone()).is_ok() { names.push(stringify!($st)); })*
                }
                (
                    json!({"kind": kind, "id": m.request_id(), "jsonrpc": m.jsonrpc(), "method": method,
                           "variant": variant, "acc": acc, "as": names}),
                    bad.0,
                )
            }

            pub fn recv(v: &Value) -> Value {
                let m = match decode(s(v, "text"), n(v, "dr")) {
                    Ok(m) => m,
                    Err(e) => return e,
                };
                let (mut d, mut bad) = describe(&m, b(v, "deep"));
                let er = n(v, "er");
                match rebuild(m, er) {
                    Ok(m) => d["enc"] = json!(encode(&m, er)),
                    Err(e) => bad.push(format!("rebuilding refused: {}", e.message)),
                }
                d["bad"] = json!(bad);
                json!({"ok": d})
            }

            /// The received reply read as the result type the requester expects.
            pub fn typed(v: &Value) -> Value {
                let m = match decode(s(v, "text"), n(v, "dr")) {
                    Ok(m) => m,
                    Err(e) => return e,
                };
                let r = match m.as_response() {
                    Ok(r) => r,
                    Err(e) => return rpc(e),
                };
                match s(v, "ty") {
                    $(stringify!($st) => match <$sty>::try_from(r.result) {
                        Ok(t) => json!({"ok": {"id": r.id, "body": t}}),
                        Err(e) => rpc(e),
                    },)*
                    o => json!({"unsupported": o}),
                }
            }

            pub fn build(v: &Value) -> Value {
                let id = v.get("id").and_then(rid);
                let body = v["body"].clone();
                let er = n(v, "er");
                let ty = s(v, "ty");
                macro_rules! t {
                    () => {
                        match serde_json::from_value(body) {
                            Ok(t) => t,
                            Err(e) => return err(None, e.to_string(), None),
                        }
                    };
                }
                let m: R<$Msg, RpcError> = match (s(v, "kind"), ty) {
                    $(("request", stringify!($rt)) => match er {
                        0 | 1 | 5 => { let x = <$rt>::new(id.unwrap(), t!()); let j: $JReq = x.into(); Ok($Msg::from(j)) }
                        2 | 3 => $Msg::from_message($From::from($RF::$rt(t!())), id),
                        _ => Ok($Msg::from($JReq::new(id.unwrap(), $RF::$rt(t!())))),
                    },)*
                    $(("notification", stringify!($nt)) => match er {
                        0 | 1 | 5 => Ok($Msg::from($JNot::$nt(<$nt>::new(t!())))),
                        2 | 3 => $Msg::from_message($From::from($NF::$nt(t!())), None),
                        _ => Ok($Msg::from($JNot::new($NF::$nt(t!())))),
                    },)*
                    $(("response", stringify!($st)) => {
                        let x: $sty = t!();
                        match er {
                            2 | 3 => { let f: $From = x.into(); $Msg::from_message(f, id) }
                            4 => $Msg::from_message($From::from($SF::from(x)), id),
                            _ => Ok($Msg::from($JRes::new(id.unwrap(), x.into()))),
                        }
                    })*
                    ("request", _) => {
                        let r = $RF::CustomRequest(t!());
                        if er % 2 == 0 { Ok($Msg::from($JReq::new(id.unwrap(), r))) } else { $Msg::from_message($From::from(r), id) }
                    }
                    ("notification", _) => {
                        let r = $NF::CustomNotification(t!());
                        if er % 2 == 0 { Ok($Msg::from($JNot::new(r))) } else { $Msg::from_message($From::from(r), id) }
                    }
                    ("response", _) => {
                        let r = $SF::Result(t!());
                        if er % 2 == 0 { Ok($Msg::from($JRes::new(id.unwrap(), r))) } else { $Msg::from_message($From::from(r), id) }
                    }
                    (_, _) => {
                        let e: RpcError = t!();
                        if er % 2 == 0 { Ok($Msg::Error(JsonrpcErrorResponse::new(e, id))) } else { $Msg::from_message($From::from(e), id) }
                    }
                };
                match m {
                    Ok(m) => json!({"ok": {"enc": encode(&m, er)}}),
                    Err(e) => rpc(e),
                }
            }

            fn idless(m: $Msg) -> $From {
                match m {
                    $Msg::Request(r) => $From::from($RF::from(r)),
                    $Msg::Notification(n) => $From::from($NF::from(n)),
                    $Msg::Response(r) => $From::from(r.result),
                    $Msg::Error(e) => $From::from(e.error),
                }
            }

            pub fn batch(v: &Value) -> Value {
                let ms: $Msgs = match serde_any(s(v, "text"), n(v, "dr")) {
                    Ok(m) => m,
                    Err(e) => return err(None, e, None),
                };
                let mut bad = Bad(vec![]);
                let is_batch = ms.is_batch();
                let inc = ms.includes_request();
                let er = n(v, "er");
                bad.req(ms.to_string() == serde_json::to_string(&ms).unwrap(), "batch Display differs from serde");
                let (one, many) = (ms.clone().as_single(), ms.clone().as_batch());
                bad.req(one.is_ok() == !is_batch, "as_single");
                bad.req(many.is_ok() == is_batch, "as_batch");
                let items: Vec<$Msg> = match ms { $Msgs::Single(m) => vec![m], $Msgs::Batch(b) => b };
                let kinds: Vec<_> = items.iter().map(|m| kind_of(m.message_type())).collect();
                let froms: Vec<$From> = items.iter().cloned().map(idless).collect();
                let fs = if is_batch { $Froms::from(froms) } else { $Froms::from(froms.into_iter().next().unwrap()) };
                bad.req(fs.is_batch() == is_batch, "id-less batch is_batch");
                bad.req(fs.includes_request() == inc, "id-less batch includes_request");
                bad.req(fs.clone().as_single().is_ok() == !is_batch, "id-less as_single");
                bad.req(fs.as_batch().is_ok() == is_batch, "id-less as_batch");
                let rebuilt: R<Vec<_>, _> = items.into_iter().map(|m| rebuild(m, er)).collect();
                let enc = match rebuilt {
                    Ok(v) if is_batch => $Msgs::from(v).to_string(),
                    Ok(v) => $Msgs::from(v.into_iter().next().unwrap()).to_string(),
                    Err(e) => return rpc(e),
                };
                json!({"ok": {"is_batch": is_batch, "inc": inc, "kinds": kinds, "enc": enc, "bad": bad.0}})
            }

            pub fn write(v: &Value) -> Value {
                if n(v, "many") == 1 {
                    return match serde_any::<$Msgs>(s(v, "text"), n(v, "dr")) {
                        Ok(m) => write_faulty(&m, v),
                        Err(e) => err(None, e, None),
                    };
                }
                match decode(s(v, "text"), n(v, "dr")) {
                    Ok(m) => write_faulty(&m, v),
                    Err(e) => e,
                }
            }
            pub fn read(v: &Value) -> Value {
                if n(v, "many") == 1 { read_faulty::<$Msgs>(&bytes_of(v), v) } else { read_faulty::<$Msg>(&bytes_of(v), v) }
            }
        }
    };
}

fn bytes_of(v: &Value) -> Vec<u8> {
    let mut b = s(v, "text").as_bytes().to_vec();
    if let Some(k) = v.get("cut").and_then(Value::as_u64) {
        b.truncate(k as usize);
    }
    b
}

fn acc_client(m: &ClientMessage, acc: &mut serde_json::Map<String, Value>) {
    acc.insert("is_init".into(), json!(m.is_initialize_request()));
    acc.insert("is_inited".into(), json!(m.is_initialized_notification()));
    if let ClientMessage::Request(r) = m {
        let rf = RequestFromClient::from(r.clone());
        acc.insert("is_init2".into(), json!(rf.is_initialize_request()));
        acc.insert("is_init3".into(), json!(MessageFromClient::from(rf).is_initialize_request()));
        if let ClientJsonrpcRequest::CallToolRequest(c) = r {
            acc.insert("tool_name".into(), json!(c.tool_name()));
            acc.insert("augmented2".into(), json!(c.is_task_augmented()));
            acc.insert("augmented3".into(), json!(c.params.is_task_augmented()));
        }
    }
    if let ClientMessage::Notification(r) = m {
        acc.insert("is_inited2".into(), json!(r.is_initialized_notification()));
        let nf = NotificationFromClient::from(r.clone());
        acc.insert("is_inited3".into(), json!(nf.is_initialized_notification()));
        acc.insert("is_inited4".into(), json!(MessageFromClient::from(nf).is_initialized_notification()));
    }
}
fn acc_server(m: &ServerMessage, acc: &mut serde_json::Map<String, Value>) {
    if let ServerMessage::Request(r) = m {
        let rf = RequestFromServer::from(r.clone());
        acc.insert("augmented2".into(), json!(rf.is_task_augmented()));
        acc.insert("augmented3".into(), json!(MessageFromServer::from(rf).is_task_augmented()));
        if let ServerJsonrpcRequest::ElicitRequest(e) = r {
            acc.insert("elicit_message".into(), json!(e.params.message()));
            acc.insert("augmented4".into(), json!(e.params.is_task_augmented()));
        }
        if let ServerJsonrpcRequest::CreateMessageRequest(e) = r {
            acc.insert("augmented4".into(), json!(e.params.is_task_augmented()));
        }
    }
    if let ServerMessage::Response(r) = m {
        if let ResultFromServer::CallToolResult(c) = &r.result {
            acc.insert("content".into(), content_acc(&c.content));
        }
    }
}

side!(
    client, ClientMessage, ClientMessages, MessageFromClient, MessagesFromClient, ClientJsonrpcRequest,
    ClientJsonrpcNotification, ClientJsonrpcResponse, RequestFromClient, NotificationFromClient, ResultFromClient,
    ClientRequest, ClientNotification, ClientResult,
    [InitializeRequest, PingRequest, ListResourcesRequest, ListResourceTemplatesRequest, ReadResourceRequest,
     SubscribeRequest, UnsubscribeRequest, ListPromptsRequest, GetPromptRequest, ListToolsRequest, CallToolRequest,
     GetTaskRequest, GetTaskPayloadRequest, CancelTaskRequest, ListTasksRequest, SetLevelRequest, CompleteRequest],
    [CancelledNotification, InitializedNotification, ProgressNotification, TaskStatusNotification, RootsListChangedNotification],
    [(GetTaskResult, GetTaskResult), (CancelTaskResult, CancelTaskResult), (ListTasksResult, ListTasksResult),
     (CreateMessageResult, CreateMessageResult), (ListRootsResult, ListRootsResult), (ElicitResult, ElicitResult),
     (CreateTaskResult, CreateTaskResult), (Result, GenericResult), (GetTaskPayloadResult, GetTaskPayloadResult)],
    acc_client
);
side!(
    server, ServerMessage, ServerMessages, MessageFromServer, MessagesFromServer, ServerJsonrpcRequest,
    ServerJsonrpcNotification, ServerJsonrpcResponse, RequestFromServer, NotificationFromServer, ResultFromServer,
    ServerRequest, ServerNotification, ServerResult,
    [PingRequest, GetTaskRequest, GetTaskPayloadRequest, CancelTaskRequest, ListTasksRequest, CreateMessageRequest,
     ListRootsRequest, ElicitRequest],
    [CancelledNotification, ProgressNotification, ResourceListChangedNotification, ResourceUpdatedNotification,
     PromptListChangedNotification, ToolListChangedNotification, TaskStatusNotification, LoggingMessageNotification,
     ElicitationCompleteNotification],
    [(InitializeResult, InitializeResult), (ListResourcesResult, ListResourcesResult),
     (ListResourceTemplatesResult, ListResourceTemplatesResult), (ReadResourceResult, ReadResourceResult),
     (ListPromptsResult, ListPromptsResult), (GetPromptResult, GetPromptResult), (ListToolsResult, ListToolsResult),
     (CallToolResult, CallToolResult), (GetTaskResult, GetTaskResult), (CancelTaskResult, CancelTaskResult),
     (ListTasksResult, ListTasksResult), (CompleteResult, CompleteResult), (CreateTaskResult, CreateTaskResult),
     (Result, GenericResult), (GetTaskPayloadResult, GetTaskPayloadResult)],
    acc_server
);

/// The demand for a URL visit reads as its own typed error, unless its details were replaced.
fn mkerr(v: &Value) -> Value {
    let out = mkerr_plain(v);
    if s(v, "which") == "url_elicit_required" && v.get("data").is_none() && matches!(n(v, "route"), 0 | 1 | 4 | 5) {
        if let Some(enc) = out["ok"]["enc"].as_str() {
            let whole: Value = serde_json::from_str(enc).unwrap_or(Value::Null);
            return match serde_json::from_str::<UrlElicitationRequiredError>(enc) {
                Ok(e) => {
                    let urls = v.get("urls").cloned().unwrap_or(json!([]));
                    if serde_json::to_value(&e).ok() == Some(whole)
                        && *e.error.code() == UrlElicitError::code_value()
                        && json!(e.error.data.elicitations) == urls
                        && serde_json::to_value(UrlElicitationRequiredError::new(UrlElicitError::new(e.error.data.clone(), e.error.message.clone()), e.id.clone())).ok() == serde_json::to_value(&e).ok()
                    {
                        out
                    } else {
                        err(None, "the typed URL demand differs from the error raised".into(), None)
                    }
                }
                Err(e) => err(None, format!("the URL demand does not read as its typed error: {e}"), None),
            };
        }
    }
    out
}
fn mkerr_plain(v: &Value) -> Value {
    let data = v.get("data").cloned();
    let msg = v.get("message").and_then(Value::as_str).map(str::to_string);
    let which = s(v, "which");
    macro_rules! pick {
        ($T:ident, $($n:ident),*) => {
            match which { $(stringify!($n) => Some($T::$n()),)* _ => None }
        };
    }
    let code_of = |w: &str| match w {
        "parse_error" => RpcErrorCodes::PARSE_ERROR,
        "invalid_request" => RpcErrorCodes::INVALID_REQUEST,
        "method_not_found" => RpcErrorCodes::METHOD_NOT_FOUND,
        "invalid_params" => RpcErrorCodes::INVALID_PARAMS,
        _ => RpcErrorCodes::INTERNAL_ERROR,
    };
    let id = v.get("id").and_then(rid);
    let urls: Vec<ElicitRequestUrlParams> =
        v.get("urls").map(|u| serde_json::from_value(u.clone()).unwrap()).unwrap_or_default();
    match n(v, "route") {
        0 | 1 => {
            let mut e = if which == "url_elicit_required" {
                RpcError::url_elicit_required(urls)
            } else {
                pick!(RpcError, method_not_found, invalid_params, invalid_request, internal_error, parse_error).unwrap()
            };
            if let Some(m) = msg { e = e.with_message(m); }
            if data.is_some() { e = e.with_data(data); }
            let text = e.to_string();
            let e2 = RpcError::from_str(&text).unwrap();
            if n(v, "route") == 0 {
                json!({"ok": {"enc": JsonrpcErrorResponse::new(e2, id).to_string()}})
            } else if s(v, "side") == "c" {
                match ClientMessage::from_message(MessageFromClient::from(e2), id) {
                    Ok(m) => json!({"ok": {"enc": m.to_string()}}),
                    Err(e) => rpc(e),
                }
            } else {
                match ServerMessage::from_message(MessageFromServer::from(e2), id) {
                    Ok(m) => json!({"ok": {"enc": m.to_string()}}),
                    Err(e) => rpc(e),
                }
            }
        }
        2 => match id {
            Some(id) => json!({"ok": {"enc": JsonrpcErrorResponse::create(Some(id), code_of(which), msg.unwrap_or_default(), data).to_string()}}),
            None => json!({"unsupported": "create without id"}),
        },
        3 => {
            let e = RpcError::new(code_of(which), msg.unwrap_or_default(), data);
            json!({"ok": {"enc": JsonrpcErrorResponse::new(e, id).to_string()}})
        }
        _ => {
            let mut e = if n(v, "route") == 6 {
                let code = match which {
                    "connection_closed" => SdkErrorCodes::CONNECTION_CLOSED,
                    "request_timeout" => SdkErrorCodes::REQUEST_TIMEOUT,
                    "resource_not_found" => SdkErrorCodes::RESOURCE_NOT_FOUND,
                    "bad_request" => SdkErrorCodes::BAD_REQUEST,
                    "session_not_found" => SdkErrorCodes::SESSION_NOT_FOUND,
                    "invalid_request" => SdkErrorCodes::INVALID_REQUEST,
                    "method_not_found" => SdkErrorCodes::METHOD_NOT_FOUND,
                    "invalid_params" => SdkErrorCodes::INVALID_PARAMS,
                    "parse_error" => SdkErrorCodes::PARSE_ERROR,
                    "url_elicit_required" => SdkErrorCodes::URL_ELICITATION_REQUIRED,
                    _ => SdkErrorCodes::INTERNAL_ERROR,
                };
                SdkError::new(code, msg.clone().unwrap_or_default(), data.clone())
            } else if which == "request_timeout" {
                SdkError::request_timeout(n(v, "timeout") as u128)
            } else if which == "url_elicit_required" {
                SdkError::url_elicit_required(urls)
            } else {
                pick!(SdkError, connection_closed, session_not_found, invalid_request, method_not_found, invalid_params,
                      internal_error, parse_error, resource_not_found, bad_request).unwrap()
            };
            if let Some(m) = msg { e = e.with_message(&m); }
            if data.is_some() { e = e.with_data(data); }
            let text = serde_json::to_string(&e).unwrap();
            let back: SdkError = serde_json::from_str(&text).unwrap();
            let r = RpcError { code: back.code, data: back.data.clone(), message: back.message.clone() };
            json!({"ok": {"enc": JsonrpcErrorResponse::new(r, id).to_string(), "display": back.to_string()}})
        }
    }
}

fn toolerr(v: &Value) -> Value {
    let mk = || {
        let name = s(v, "name").to_string();
        let msg = v.get("message").and_then(Value::as_str).map(str::to_string);
        match s(v, "which") {
            "unknown" => CallToolError::unknown_tool(name),
            "invalid" => CallToolError::invalid_arguments(name, msg),
            "notask" => CallToolError::unsupported_task_augmented_tool_call(),
            "io" => CallToolError::new(std::io::Error::new(std::io::ErrorKind::Other, msg.unwrap_or_default())),
            "chain" => CallToolError::new(Chained::of(msg.unwrap_or_default(), &v["causes"])),
            _ => CallToolError::from_message(msg.unwrap_or_default()),
        }
    };
    let e = mk();
    let text = e.to_string();
    let causes = causes_of(&e);
    let id = rid(&v["id"]).unwrap();
    let res = match n(v, "route") {
        0 => CallToolResult::from(mk()),
        _ => CallToolResult::with_error(mk()),
    };
    let rp: RpcError = e.into();
    let m = ServerMessage::from_message(MessageFromServer::from(res), Some(id.clone())).unwrap();
    json!({"ok": {"text": text, "causes": causes, "enc": m.to_string(), "rpc": JsonrpcErrorResponse::new(rp, Some(id)).to_string()}})
}

fn generic(v: &Value) -> Value {
    match serde_any::<JsonrpcMessage>(s(v, "text"), n(v, "dr")) {
        Ok(m) => {
            let name = match &m {
                JsonrpcMessage::Request(_) => "request",
                JsonrpcMessage::Notification(_) => "notification",
                JsonrpcMessage::ResultResponse(_) => "response",
                JsonrpcMessage::ErrorResponse(_) => "error",
            };
            json!({"ok": {"kind": name, "enc": serde_json::to_string(&m).unwrap()}})
        }
        Err(e) => err(None, e, None),
    }
}

/// Capability gates. `who` names the side whose declared capabilities decide.
fn cap(v: &Value) -> Value {
    let show = |r: R<(), RpcError>| match r {
        Ok(()) => json!({"allow": true}),
        Err(e) => json!({"allow": false, "code": e.code, "message": e.message}),
    };
    if s(v, "who") == "server" {
        let c: ServerCapabilities = match serde_json::from_value(v["caps"].clone()) {
            Ok(c) => c,
            Err(e) => return err(None, e.to_string(), None),
        };
        if let Some(t) = v.get("text").and_then(Value::as_str) {
            return match ClientJsonrpcRequest::from_str(t) {
                Ok(r) => json!({"ok": show(c.can_handle_request(&r))}),
                Err(e) => rpc(e),
            };
        }
        if let Some(m) = v.get("method").and_then(Value::as_str) {
            return json!({"ok": show(c.can_accept_notification(m))});
        }
        let t = c.tasks.clone();
        json!({"ok": {"list": c.can_list_tasks(), "cancel": c.can_cancel_tasks(), "tools": c.can_run_task_augmented_tools(),
            "t_list": t.as_ref().map(|t| t.can_list_tasks()), "t_cancel": t.as_ref().map(|t| t.can_cancel_tasks()),
            "t_tools": t.as_ref().map(|t| t.can_run_task_augmented_tools())}})
    } else {
        let c: ClientCapabilities = match serde_json::from_value(v["caps"].clone()) {
            Ok(c) => c,
            Err(e) => return err(None, e.to_string(), None),
        };
        if let Some(t) = v.get("text").and_then(Value::as_str) {
            return match ServerJsonrpcRequest::from_str(t) {
                Ok(r) => json!({"ok": show(c.can_handle_request(&r))}),
                Err(e) => rpc(e),
            };
        }
        if let Some(m) = v.get("method").and_then(Value::as_str) {
            return json!({"ok": show(c.can_accept_notification(m))});
        }
        let t = c.tasks.clone();
        json!({"ok": {"list": c.can_list_tasks(), "cancel": c.can_cancel_tasks(),
            "elicit": c.can_accept_elicitation_task(), "sampling": c.can_accept_sampling_task(),
            "t_list": t.as_ref().map(|t| t.can_list_tasks()), "t_cancel": t.as_ref().map(|t| t.can_cancel_tasks()),
            "t_elicit": t.as_ref().map(|t| t.can_accept_elicitation_task()),
            "t_sampling": t.as_ref().map(|t| t.can_accept_sampling_task())}})
    }
}

/// Task helpers.
fn task(v: &Value) -> Value {
    match s(v, "what") {
        "terminal" => {
            let st: TaskStatus = serde_json::from_value(v["status"].clone()).unwrap();
            json!({"ok": {"terminal": st.is_terminal(), "display": st.to_string()}})
        }
        "task_terminal" => match serde_json::from_value::<Task>(v["task"].clone()) {
            Ok(t) => json!({"ok": {"terminal": t.is_terminal(), "body": t}}),
            Err(e) => err(None, e.to_string(), None),
        },
        "get_terminal" => match serde_json::from_value::<GetTaskResult>(v["task"].clone()) {
            Ok(t) => json!({"ok": {"terminal": t.is_terminal(), "body": t}}),
            Err(e) => err(None, e.to_string(), None),
        },
        // attach the task id to a payload result, send it, and read it back at the other side
        "relate" => {
            let mut p: GetTaskPayloadResult = match serde_json::from_value(v["payload"].clone()) {
                Ok(p) => p,
                Err(e) => return err(None, e.to_string(), None),
            };
            let id = s(v, "task_id").to_string();
            // tied to another task before: the last one counts
            if let Some(prior) = v["prior"].as_str() {
                if n(v, "route") == 0 {
                    p.meta = Some(p.meta.take().unwrap_or_default().with_related_task_id(prior));
                } else {
                    p.set_related_task_id(prior);
                }
            }
            if n(v, "route") == 0 {
                p.set_related_task_id(id);
            } else {
                p.meta = Some(p.meta.take().unwrap_or_default().with_related_task_id(id));
            }
            let text = serde_json::to_string(&p).unwrap();
            let back: GetTaskPayloadResult = serde_json::from_str(&text).unwrap();
            json!({"ok": {"enc": text, "id": back.related_task_id(), "id2": back.meta.as_ref().and_then(|m| m.related_task_id())}})
        }
        "related_of" => {
            let m: serde_json::Map<String, Value> = v["meta"].as_object().cloned().unwrap_or_default();
            json!({"ok": {"id": m.related_task_id()}})
        }
        "meta" => {
            let m = serde_json::Map::<String, Value>::new();
            let m = m.add(s(v, "k"), v["v"].clone()).add_if(b(v, "c"), "second", 2).add_raw("raw", v["v"].clone());
            json!({"ok": {"enc": Value::Object(m)}})
        }
        // ask for task execution through the builders
        "with_task" => {
            let id: RequestId = serde_json::from_value(v.get("id").cloned().unwrap_or(json!(1))).unwrap();
            let t: TaskMetadata = serde_json::from_value(v["task"].clone()).unwrap();
            match s(v, "ty") {
                "call" => {
                    let p: CallToolRequestParams = serde_json::from_value(v["params"].clone()).unwrap();
                    let mut q = CallToolRequestParams::new(p.name.clone());
                    if let Some(a) = p.arguments { q = q.with_arguments(a); }
                    if let Some(m) = p.meta { q = q.with_meta(m); }
                    let q = q.with_task(t);
                    let r = ClientJsonrpcRequest::new(id.clone(), RequestFromClient::CallToolRequest(q));
                    json!({"ok": {"enc": r.to_string(), "aug": r.is_task_augmented()}})
                }
                _ => {
                    let p: ElicitRequestParams = serde_json::from_value(v["params"].clone()).unwrap();
                    let q = if n(v, "route") == 0 {
                        p.with_task(t)
                    } else {
                        match p {
                            ElicitRequestParams::UrlParams(u) => ElicitRequestParams::UrlParams(u.with_task(t)),
                            ElicitRequestParams::FormParams(u) => ElicitRequestParams::FormParams(u.with_task(t)),
                        }
                    };
                    let r = ServerJsonrpcRequest::new(id.clone(), RequestFromServer::ElicitRequest(q));
                    json!({"ok": {"enc": r.to_string(), "aug": r.is_task_augmented()}})
                }
            }
        }
        // what a finished task's payload means to whoever asked for it
        "payload_client" => match serde_json::from_value::<ResultFromClient>(v["payload"].clone()) {
            Ok(r) => match ClientTaskResult::try_from(r) {
                Ok(t) => {
                    let nm = match &t { ClientTaskResult::ElicitResult(_) => "ElicitResult", ClientTaskResult::CreateMessageResult(_) => "CreateMessageResult" };
                    json!({"ok": {"ty": nm, "enc": serde_json::to_string(&ResultFromClient::from(t)).unwrap()}})
                }
                Err(e) => rpc(e),
            },
            Err(e) => err(None, e.to_string(), None),
        },
        o => json!({"unsupported": o}),
    }
}

pub fn op(v: &Value) -> Value {
    let c = s(v, "side") == "c";
    match s(v, "op") {
        "recv" => if c { client::recv(v) } else { server::recv(v) },
        "typed" => if c { client::typed(v) } else { server::typed(v) },
        "build" => if c { client::build(v) } else { server::build(v) },
        "batch" => if c { client::batch(v) } else { server::batch(v) },
        "write" => if c { client::write(v) } else { server::write(v) },
        "read" => if c { client::read(v) } else { server::read(v) },
        "mkerr" => mkerr(v),
        "toolerr" => toolerr(v),
        "tie" => tie(v),
        "tie_make" => tie_make(v),
        "generic" => generic(v),
        "cap" => cap(v),
        "task" => task(v),
        "proto" => crate::common::proto(v, LATEST_PROTOCOL_VERSION),
        o => json!({"unsupported": o}),
    }
}

// ---- standing interests: what a notification is about, read and made through the typed forms ----

fn lookup(open: &Value, id: &RequestId) -> Value {
    let mut h: HashMap<RequestId, usize> = HashMap::new();
    for (i, x) in open.as_array().into_iter().flatten().enumerate() {
        if let Some(x) = rid(x) { h.insert(x, i); }
    }
    let found = h.get(id);
    // searched one by one, the answer is the same
    
    let mut one: Option<&usize> = None;
    for (x, i) in &h {
        if <&RequestId as PartialEq<RequestId>>::eq(&id, x) { one = Some(i); }
    }
    if one != found {
        return json!("found differently when searched one by one");
    }
    json!(found)
}
fn tie(v: &Value) -> Value {
    let t = s(v, "text");
    let o = if s(v, "side") == "c" {
        match ClientMessage::from_str(t) {
            Err(e) => return rpc(e),
            Ok(ClientMessage::Request(r)) => match RequestFromClient::from(r) {
                RequestFromClient::SubscribeRequest(x) => json!({"what": "subscribe", "uri": x.uri, "token": x.meta.and_then(|m| m.progress_token)}),
                RequestFromClient::UnsubscribeRequest(x) => json!({"what": "unsubscribe", "uri": x.uri, "token": x.meta.and_then(|m| m.progress_token)}),
                RequestFromClient::CallToolRequest(x) => json!({"what": "call", "token": x.meta.and_then(|m| m.progress_token)}),
                RequestFromClient::GetPromptRequest(x) => json!({"what": "call", "token": x.meta.and_then(|m| m.progress_token)}),
                RequestFromClient::ReadResourceRequest(x) => json!({"what": "call", "token": x.meta.and_then(|m| m.progress_token)}),
                RequestFromClient::CompleteRequest(x) => json!({"what": "call", "token": x.meta.and_then(|m| m.progress_token)}),
                RequestFromClient::ListToolsRequest(x) => json!({"what": "call", "token": x.and_then(|x| x.meta).and_then(|m| m.progress_token)}),
                _ => json!({"what": "other"}),
            },
            Ok(ClientMessage::Notification(n)) => match NotificationFromClient::from(n) {
                NotificationFromClient::CancelledNotification(x) => json!({"what": "cancelled", "id": x.request_id, "at": x.request_id.as_ref().map(|i| lookup(&v["open"], i))}),
                _ => json!({"what": "other"}),
            },
            _ => json!({"what": "other"}),
        }
    } else {
        match ServerMessage::from_str(t) {
            Err(e) => return rpc(e),
            Ok(ServerMessage::Request(r)) => match RequestFromServer::from(r) {
                RequestFromServer::ElicitRequest(ElicitRequestParams::UrlParams(x)) => json!({"what": "url", "eid": x.elicitation_id}),
                _ => json!({"what": "other"}),
            },
            Ok(ServerMessage::Notification(n)) => match NotificationFromServer::from(n) {
                NotificationFromServer::ProgressNotification(x) => json!({"what": "progress", "token": x.progress_token, "progress": x.progress, "total": x.total}),
                NotificationFromServer::ResourceUpdatedNotification(x) => json!({"what": "updated", "uri": x.uri}),
                NotificationFromServer::ToolListChangedNotification(_) => json!({"what": "tools"}),
                NotificationFromServer::PromptListChangedNotification(_) => json!({"what": "prompts"}),
                NotificationFromServer::ResourceListChangedNotification(_) => json!({"what": "resources"}),
                NotificationFromServer::ElicitationCompleteNotification(x) => json!({"what": "complete", "eid": x.elicitation_id}),
                _ => json!({"what": "other"}),
            },
            _ => json!({"what": "other"}),
        }
    };
    json!({"ok": o})
}
fn tie_make(v: &Value) -> Value {
    fn sv<T>(t: T) -> R<String, RpcError> where T: Into<NotificationFromServer> {
        Ok(ServerMessage::from_message(MessageFromServer::from(t.into()), None)?.to_string())
    }
    let uri = s(v, "uri").to_string();
    let r = match s(v, "what") {
        "progress" => sv(NotificationFromServer::ProgressNotification(ProgressNotificationParams {
            message: None, meta: None, progress: v["progress"].as_f64().unwrap(), total: v["total"].as_f64(),
            progress_token: match &v["token"] {
                Value::String(x) => ProgressToken::String(x.clone()),
                x => ProgressToken::from(x.as_i64().unwrap()),
            },
        })),
        "updated" => sv(NotificationFromServer::ResourceUpdatedNotification(ResourceUpdatedNotificationParams { meta: None, uri })),
        "tools" => sv(NotificationFromServer::ToolListChangedNotification(None)),
        "prompts" => sv(NotificationFromServer::PromptListChangedNotification(None)),
        "resources" => sv(NotificationFromServer::ResourceListChangedNotification(None)),
        "complete" => Ok(serde_json::to_string(&ElicitationCompleteNotification::new(ElicitCompleteParams { elicitation_id: s(v, "eid").to_string() })).unwrap()),
        "cancelled" => Ok(serde_json::to_string(&CancelledNotification::new(CancelledNotificationParams { meta: None, reason: v["reason"].as_str().map(str::to_string), request_id: rid(&v["id"]) })).unwrap()),
        w => return json!({"unsupported": w}),
    };
    match r {
        Ok(e) => json!({"ok": {"enc": e}}),
        Err(e) => rpc(e),
    }
}
