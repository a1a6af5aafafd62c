//! Adapter for the 2024-11-05, 2025-03-26 and 2025-06-18 API family.
use crate::common::*;
#[cfg(feature = "v2024_11_05")]
use rust_mcp_schema::mcp_2024_11_05 as mcp;
#[cfg(feature = "v2025_03_26")]
use rust_mcp_schema::mcp_2025_03_26 as mcp;
#[cfg(feature = "v2025_06_18")]
use rust_mcp_schema::mcp_2025_06_18 as mcp;

use mcp::schema_utils::*;
use mcp::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::result::Result as R;
use std::str::FromStr;

#[cfg(feature = "v2025_06_18")]
type Content = ContentBlock;
#[cfg(not(feature = "v2025_06_18"))]
type Content = CallToolResultContentItem;

fn rpc(e: RpcError) -> Value {
    err(Some(e.code), e.message, e.data)
}
/// Ids that are almost this one.
fn near_ids(id: &RequestId) -> Vec<RequestId> {
    near(&serde_json::to_value(id).unwrap()).into_iter().map(|x| match x {
        Value::String(s) => RequestId::String(s),
        n => RequestId::Integer(n.as_i64().unwrap()),
    }).collect()
}
fn rid(v: &Value) -> Option<RequestId> {
    serde_json::from_value(v.clone()).ok()
}
fn kind_of(t: MessageTypes) -> &'static str {
    match t {
        MessageTypes::Request => "request",
        MessageTypes::Response => "response",
        MessageTypes::Notification => "notification",
        MessageTypes::Error => "error",
    }
}

fn content_acc(items: &[Content]) -> Value {
    json!(items
        .iter()
        .map(|c| {
            let mut as_ = vec![];
            if let Ok(x) = c.as_text_content() { as_.push(json!(["text", x])); }
            if let Ok(x) = c.as_image_content() { as_.push(json!(["image", x])); }
            #[cfg(not(feature = "v2024_11_05"))]
            if let Ok(x) = c.as_audio_content() { as_.push(json!(["audio", x])); }
            #[cfg(feature = "v2025_06_18")]
            if let Ok(x) = c.as_resource_link() { as_.push(json!(["resource_link", x])); }
            if let Ok(x) = c.as_embedded_resource() { as_.push(json!(["resource", x])); }
            json!({"t": c.content_type(), "as": as_})
        })
        .collect::<Vec<_>>())
}

/// A reply taken apart as far as it goes: its members in the type that is open to all of them.
trait Opened: Sized {
    fn opened(self) -> Self;
}
impl Opened for ResultFromClient {
    fn opened(self) -> Self {
        self
    }
}
impl Opened for ResultFromServer {
    fn opened(self) -> Self {
        match self {
            ResultFromServer::ServerResult(ServerResult::InitializeResult(t)) => GenericResult::from(t).into(),
            ResultFromServer::ServerResult(ServerResult::ListResourcesResult(t)) => GenericResult::from(t).into(),
            ResultFromServer::ServerResult(ServerResult::ListResourceTemplatesResult(t)) => GenericResult::from(t).into(),
            ResultFromServer::ServerResult(ServerResult::ReadResourceResult(t)) => GenericResult::from(t).into(),
            ResultFromServer::ServerResult(ServerResult::ListPromptsResult(t)) => GenericResult::from(t).into(),
            ResultFromServer::ServerResult(ServerResult::GetPromptResult(t)) => GenericResult::from(t).into(),
            ResultFromServer::ServerResult(ServerResult::ListToolsResult(t)) => GenericResult::from(t).into(),
            ResultFromServer::ServerResult(ServerResult::CallToolResult(t)) => GenericResult::from(t).into(),
            ResultFromServer::ServerResult(ServerResult::CompleteResult(t)) => GenericResult::from(t).into(),
            x => x,
        }
    }
}
macro_rules! side {
    ($m:ident, $Msg:ident, $Msgs:ident, $From:ident, $Froms:ident, $JReq:ident, $JNot:ident, $JRes:ident,
     $RF:ident, $NF:ident, $SF:ident, $Rq:ident, $Nt:ident, $Rs:ident,
     [$($rt:ident),*], [$($nt:ident),*], [$($st:ident),*], $acc:ident) => {
        pub mod $m {
            use super::*;

            pub fn decode(text: &str, dr: u64) -> R<$Msg, Value> {
                match dr {
                    0 => $Msg::from_str(text).map_err(rpc),
                    5 => {
                        // Through the kind-specific entry point that the frame calls for.
                        let probe: Value = serde_json::from_str(text).unwrap_or(Value::Null);
                        if probe.get("error").is_some() {
                            JsonrpcError::from_str(text).map($Msg::Error).map_err(rpc)
                        } else if probe.get("result").is_some() {
                            $JRes::from_str(text).map($Msg::Response).map_err(rpc)
                        } else if probe.get("id").is_some() {
                            $JReq::from_str(text).map($Msg::Request).map_err(rpc)
                        } else {
                            $JNot::from_str(text).map($Msg::Notification).map_err(rpc)
                        }
                    }
                    r => serde_any::<$Msg>(text, r).map_err(|e| err(None, e, None)),
                }
            }

            pub fn req_name(r: &$RF) -> &'static str {
                #[allow(unreachable_patterns)]
                match r {
                    $($RF::$Rq($Rq::$rt(_)) => stringify!($rt),)*
                    $RF::CustomRequest(_) => "custom",
                    _ => "other",
                }
            }
            pub fn not_name(r: &$NF) -> &'static str {
                #[allow(unreachable_patterns)]
                match r {
                    $($NF::$Nt($Nt::$nt(_)) => stringify!($nt),)*
                    $NF::CustomNotification(_) => "custom",
                    _ => "other",
                }
            }
            pub fn res_name(r: &$SF) -> &'static str {
                #[allow(unreachable_patterns)]
                match r {
                    $($SF::$Rs($Rs::$st(_)) => stringify!($st),)*
                    $SF::CustomResult(_) => "custom",
                    _ => "other",
                }
            }

            fn out_req<T>(t: T, id: RequestId, er: u64) -> R<$Msg, RpcError>
            where
                T: Into<$RF> + Into<$From> + ToMessage<$Msg> + Sized,
                $Msg: FromMessage<T>,
            {
                Ok(match er {
                    3 => t.to_message(Some(id))?,
                    4 => $Msg::from_message(t, Some(id))?,
                    6 => $Msg::from($JReq::new(id, t.into())),
                    _ => {
                        let m: $From = t.into();
                        <$Msg as FromMessage<$From>>::from_message(m, Some(id))?
                    }
                })
            }
            fn out_not<T>(t: T, er: u64) -> R<$Msg, RpcError>
            where
                T: Into<$NF> + Into<$From> + Into<$JNot> + ToMessage<$Msg> + Sized,
                $Msg: FromMessage<T>,
            {
                Ok(match er {
                    3 => t.to_message(None)?,
                    4 => $Msg::from_message(t, None)?,
                    6 => { let j: $JNot = t.into(); $Msg::from(j) }
                    7 => $Msg::from($JNot::new(t.into())),
                    _ => {
                        let m: $From = t.into();
                        <$Msg as FromMessage<$From>>::from_message(m, None)?
                    }
                })
            }
            fn out_res<T>(t: T, id: RequestId, er: u64) -> R<$Msg, RpcError>
            where
                T: Into<$SF> + Into<$From> + ToMessage<$Msg> + Sized,
                $Msg: FromMessage<T>,
            {
                Ok(match er {
                    3 => t.to_message(Some(id))?,
                    4 => $Msg::from_message(t, Some(id))?,
                    6 => $Msg::from($JRes::new(id, t.into())),
                    _ => {
                        let m: $From = t.into();
                        <$Msg as FromMessage<$From>>::from_message(m, Some(id))?
                    }
                })
            }

            /// Take the message apart and put it together again by construction route `er`.
            pub fn rebuild(m: $Msg, er: u64) -> R<$Msg, RpcError> {
                match (er, m) {
                    (0 | 1 | 5, m) => Ok(m),
                    (2, m) => {
                        let id = m.request_id().cloned();
                        let f = match m {
                            $Msg::Request(r) => $From::from(r.request),
                            $Msg::Notification(n) => $From::from(n.notification),
                            $Msg::Response(r) => $From::from(r.result),
                            $Msg::Error(e) => $From::from(e.error),
                        };
                        $Msg::from_message(f, id)
                    }
                    (er, $Msg::Request(r)) => match &r.request {
                        $($RF::$Rq($Rq::$rt(_)) => {
                            let t = <$rt>::try_from(r.request)?;
                            out_req(t, r.id, er)
                        })*
                        #[allow(unreachable_patterns)]
                        _ => Ok($Msg::from($JReq::new(r.id, r.request))),
                    },
                    (er, $Msg::Notification(n)) => match &n.notification {
                        $($NF::$Nt($Nt::$nt(_)) => {
                            let t = <$nt>::try_from(n.notification)?;
                            out_not(t, er)
                        })*
                        #[allow(unreachable_patterns)]
                        _ => Ok($Msg::from($JNot::new(n.notification))),
                    },
                    (7, $Msg::Response(r)) => Ok($Msg::from($JRes::new(r.id, r.result.opened()))),
                    (er, $Msg::Response(r)) => match &r.result {
                        $($SF::$Rs($Rs::$st(_)) => {
                            let t = <$st>::try_from(r.result)?;
                            out_res(t, r.id, er)
                        })*
                        #[allow(unreachable_patterns)]
                        _ => Ok($Msg::from($JRes::new(r.id, r.result))),
                    },
                    (er, $Msg::Error(e)) => Ok($Msg::Error(match er {
                        3 => JsonrpcError::new(e.error, e.id),
                        _ => e,
                    })),
                }
            }

            pub fn encode(m: &$Msg, er: u64) -> String {
                match er {
                    1 => m.to_string(),
                    5 => serde_json::to_value(m).unwrap().to_string(),
                    8 => match m {
                        $Msg::Request(x) => x.to_string(),
                        $Msg::Notification(x) => x.to_string(),
                        $Msg::Response(x) => x.to_string(),
                        $Msg::Error(x) => x.to_string(),
                    },
                    _ => serde_json::to_string(m).unwrap(),
                }
            }

            /// Neither way of making a message from the typed value takes this id.
            fn refuses<T>(t: &T, id: Option<RequestId>) -> bool
            where
                T: Clone + ToMessage<$Msg>,
                $Msg: FromMessage<T>,
            {
                t.clone().to_message(id.clone()).is_err() && $Msg::from_message(t.clone(), id).is_err()
            }

            pub fn describe(m: &$Msg, deep: bool) -> (Value, Vec<String>) {
                let mut bad = Bad(vec![]);
                let preds = [m.is_request(), m.is_notification(), m.is_response(), m.is_error()];
                let kind = kind_of(m.message_type());
                let by_variant = match m {
                    $Msg::Request(_) => "request",
                    $Msg::Notification(_) => "notification",
                    $Msg::Response(_) => "response",
                    $Msg::Error(_) => "error",
                };
                bad.req(kind == by_variant, "message_type differs from the variant");
                bad.req(
                    preds == [kind == "request", kind == "notification", kind == "response", kind == "error"],
                    "classification predicates disagree with message_type",
                );
                let (method, method2, variant) = match m {
                    $Msg::Request(r) => (Some(r.method.clone()), Some(r.request.method().to_string()), req_name(&r.request)),
                    $Msg::Notification(r) => (Some(r.method.clone()), None, not_name(&r.notification)),
                    $Msg::Response(r) => (None, None, res_name(&r.result)),
                    $Msg::Error(_) => (None, None, "error"),
                };
                if let (Some(a), Some(b)) = (&method, &method2) {
                    bad.req(a == b, "method field differs from method()");
                }
                let mut acc = serde_json::Map::new();
                $acc(m, &mut acc);
                if deep {
                    let mm = m.clone();
                    bad.req(mm.to_string() == serde_json::to_string(m).unwrap(), "Display differs from serde encoding of a clone");
                    let f: $From = match m.clone() {
                        $Msg::Request(r) => r.request.into(),
                        $Msg::Notification(n) => n.notification.into(),
                        $Msg::Response(r) => r.result.into(),
                        $Msg::Error(e) => e.error.into(),
                    };
                    bad.req(kind_of(f.message_type()) == kind, "id-less form changes the kind");
                    bad.req(
                        [f.is_request(), f.is_notification(), f.is_response(), f.is_error()] == preds,
                        "id-less form changes the predicates",
                    );
                    // construction rules: only notifications go without an id
                    let with = $Msg::from_message(f.clone(), Some(RequestId::Integer(7)));
                    let without = $Msg::from_message(f, None);
                    bad.req(with.is_ok() == (kind != "notification"), "from_message with an id");
                    bad.req(without.is_ok() == (kind == "notification"), "from_message without an id");
                    for e in [with.err(), without.err()].into_iter().flatten() {
                        bad.req(e.code == -32603, "from_message refusal code");
                    }
                    let c = |r: R<(), RpcError>, k: &str| match r {
                        Ok(()) => k == kind,
                        Err(e) => k != kind && e.code == -32603,
                    };
                    bad.req(c(m.clone().as_request().map(|_| ()), "request"), "as_request");
                    bad.req(c(m.clone().as_notification().map(|_| ()), "notification"), "as_notification");
                    bad.req(c(m.clone().as_response().map(|_| ()), "response"), "as_response");
                    bad.req(c(m.clone().as_error().map(|_| ()), "error"), "as_error");
                    match m {
                        $Msg::Request(r) => {
                            bad.req($Rq::try_from(r.request.clone()).is_ok() == (variant != "custom"), "request TryFrom standard enum");
                            let again: Option<$RF> = match &r.request {
                                $RF::CustomRequest(v) => Some(v.clone().into()),
                                x => $Rq::try_from(x.clone()).ok().map(Into::into),
                            };
                            bad.req(again.as_ref().is_some_and(|x| {
                                req_name(x) == variant
                                    && serde_json::to_value(x).ok() == serde_json::to_value(&r.request).ok()
                            }), "request made from its standard form or value differs");
                            $(bad.req(<$rt>::try_from(r.request.clone()).is_ok() == (variant == stringify!($rt)), concat!("request TryFrom ", stringify!($rt)));)*
                            $(if let Ok(x) = <$rt>::try_from(r.request.clone()) {
                                bad.req(refuses(&x, None), concat!("a request was built without an id: ", stringify!($rt)));
                            })*
                        }
                        $Msg::Notification(r) => {
                            bad.req($Nt::try_from(r.notification.clone()).is_ok() == (variant != "custom"), "notification TryFrom standard enum");
                            $(bad.req(<$nt>::try_from(r.notification.clone()).is_ok() == (variant == stringify!($nt)), concat!("notification TryFrom ", stringify!($nt)));)*
                            $(if let Ok(x) = <$nt>::try_from(r.notification.clone()) {
                                bad.req(refuses(&x, Some(RequestId::Integer(7))), concat!("a notification was built with an id: ", stringify!($nt)));
                            })*
                        }
                        $Msg::Response(r) => {
                            bad.req($Rs::try_from(r.result.clone()).is_ok() == (variant != "custom"), "result TryFrom standard enum");
                            let again: Option<$SF> = match &r.result {
                                $SF::CustomResult(v) => Some(v.clone().into()),
                                x => $Rs::try_from(x.clone()).ok().map(Into::into),
                            };
                            bad.req(again.as_ref().is_some_and(|x| {
                                res_name(x) == variant
                                    && serde_json::to_value(x).ok() == serde_json::to_value(&r.result).ok()
                            }), "result made from its standard form or value differs");
                            $(bad.req(<$st>::try_from(r.result.clone()).is_ok() == (variant == stringify!($st)), concat!("result TryFrom ", stringify!($st)));)*
                            $(if let Ok(x) = <$st>::try_from(r.result.clone()) {
                                bad.req(refuses(&x, None), concat!("a reply was built without an id: ", stringify!($st)));
                            })*
                        }
                        $Msg::Error(_) => {}
                    }
                    if let Some(id) = m.request_id() {
                        let sid = RequestId::String(id.to_string());
                        let is_int = matches!(id, RequestId::Integer(_));
                        bad.req(id == &id.clone(), "request id not equal to its copy");
                        bad.req((id == &sid) != is_int, "string and integer request ids confused");
                        let mut h: HashMap<RequestId, u8> = HashMap::new();
                        h.insert(id.clone(), 1);
                        h.insert(sid, 2);
                        bad.req(h.len() == if is_int { 2 } else { 1 }, "request id hash table");
                        bad.req(h.contains_key(&id.clone()), "request id lookup");
                        for t in near_ids(id) {
                            bad.req(id != &t && &t != id, "request id equal to another one");
                            bad.req(h.insert(t, 3).is_none(), "request id stored as another one");
                        }
                        bad.req(h.get(id) == Some(if is_int { &1 } else { &2 }), "request id found as another one");
                    }
                }
                (
                    json!({"kind": kind, "id": m.request_id(), "jsonrpc": m.jsonrpc(), "method": method,
                           "variant": variant, "acc": acc}),
                    bad.0,
                )
            }

            pub fn recv(v: &Value) -> Value {
                let m = match decode(s(v, "text"), n(v, "dr")) {
                    Ok(m) => m,
                    Err(e) => return e,
                };
                let deep = b(v, "deep");
                let (mut d, mut bad) = describe(&m, deep);
                let er = n(v, "er");
                match rebuild(m, er) {
                    Ok(m) => {
                        let enc = encode(&m, er);
                        d["enc"] = json!(enc);
                    }
                    Err(e) => bad.push(format!("rebuilding refused: {}", e.message)),
                }
                d["bad"] = json!(bad);
                json!({"ok": d})
            }

            /// Build a typed message from its parts by a construction route.
            pub fn build(v: &Value) -> Value {
                let id = v.get("id").and_then(rid);
                let body = v["body"].clone();
                let er = n(v, "er");
                let ty = s(v, "ty");
                let k = s(v, "kind");
                macro_rules! t {
                    ($T:ty) => {
                        match serde_json::from_value::<$T>(body) {
                            Ok(t) => t,
                            Err(e) => return err(None, e.to_string(), None),
                        }
                    };
                }
                let m: R<$Msg, RpcError> = match (k, ty) {
                    $(("request", stringify!($rt)) => out_req(t!($rt), id.unwrap(), er),)*
                    $(("notification", stringify!($nt)) => out_not(t!($nt), er),)*
                    $(("response", stringify!($st)) => out_res(t!($st), id.unwrap(), er),)*
                    ("request", _) => {
                        let r = $RF::CustomRequest(body);
                        if er % 2 == 0 { Ok($Msg::from($JReq::new(id.unwrap(), r))) } else { $Msg::from_message($From::from(r), id) }
                    }
                    ("notification", _) => {
                        let r = $NF::CustomNotification(body);
                        if er % 2 == 0 { Ok($Msg::from($JNot::new(r))) } else { $Msg::from_message($From::from(r), id) }
                    }
                    ("response", _) => {
                        let r = $SF::CustomResult(body);
                        if er % 2 == 0 { Ok($Msg::from($JRes::new(id.unwrap(), r))) } else { $Msg::from_message($From::from(r), id) }
                    }
                    (_, _) => {
                        let e = t!(RpcError);
                        if er % 2 == 0 { Ok($Msg::Error(JsonrpcError::new(e, id.unwrap()))) } else { $Msg::from_message($From::from(e), id) }
                    }
                };
                match m {
                    Ok(m) => json!({"ok": {"enc": encode(&m, er)}}),
                    Err(e) => rpc(e),
                }
            }

            pub fn batch(v: &Value) -> Value {
                let ms: $Msgs = match serde_any(s(v, "text"), n(v, "dr")) {
                    Ok(m) => m,
                    Err(e) => return err(None, e, None),
                };
                let mut bad = Bad(vec![]);
                let is_batch = ms.is_batch();
                let inc = ms.includes_request();
                let er = n(v, "er");
                bad.req(ms.to_string() == serde_json::to_string(&ms).unwrap(), "batch Display differs from serde");
                let (one, many) = (ms.clone().as_single(), ms.clone().as_batch());
                bad.req(one.is_ok() == !is_batch, "as_single");
                bad.req(many.is_ok() == is_batch, "as_batch");
                let items: Vec<$Msg> = match ms {
                    $Msgs::Single(m) => vec![m],
                    $Msgs::Batch(b) => b,
                };
                let kinds: Vec<_> = items.iter().map(|m| kind_of(m.message_type())).collect();
                let froms: Vec<$From> = items.iter().cloned().map(|m| match m {
                    $Msg::Request(r) => $From::from(r.request),
                    $Msg::Notification(n) => $From::from(n.notification),
                    $Msg::Response(r) => $From::from(r.result),
                    $Msg::Error(e) => $From::from(e.error),
                }).collect();
                let fs = if is_batch { $Froms::from(froms) } else { $Froms::from(froms.into_iter().next().unwrap()) };
                bad.req(fs.is_batch() == is_batch, "id-less batch is_batch");
                bad.req(fs.includes_request() == inc, "id-less batch includes_request");
                bad.req(fs.clone().as_single().is_ok() == !is_batch, "id-less as_single");
                bad.req(fs.as_batch().is_ok() == is_batch, "id-less as_batch");
                let rebuilt: R<Vec<_>, _> = items.into_iter().map(|m| rebuild(m, er)).collect();
                let enc = match rebuilt {
                    Ok(v) if is_batch => $Msgs::from(v).to_string(),
                    Ok(v) => $Msgs::from(v.into_iter().next().unwrap()).to_string(),
                    Err(e) => return rpc(e),
                };
                json!({"ok": {"is_batch": is_batch, "inc": inc, "kinds": kinds, "enc": enc, "bad": bad.0}})
            }

            pub fn write(v: &Value) -> Value {
                if n(v, "many") == 1 {
                    return match serde_any::<$Msgs>(s(v, "text"), n(v, "dr")) {
                        Ok(m) => write_faulty(&m, v),
                        Err(e) => err(None, e, None),
                    };
                }
                match decode(s(v, "text"), n(v, "dr")) {
                    Ok(m) => write_faulty(&m, v),
                    Err(e) => e,
                }
            }
            pub fn read(v: &Value) -> Value {
                if n(v, "many") == 1 { read_faulty::<$Msgs>(&bytes_of(v), v) } else { read_faulty::<$Msg>(&bytes_of(v), v) }
            }
        }
    };
}

fn bytes_of(v: &Value) -> Vec<u8> {
    let mut b = s(v, "text").as_bytes().to_vec();
    if let Some(k) = v.get("cut").and_then(Value::as_u64) {
        b.truncate(k as usize);
    }
    b
}

fn acc_client(m: &ClientMessage, acc: &mut serde_json::Map<String, Value>) {
    acc.insert("is_init".into(), json!(m.is_initialize_request()));
    acc.insert("is_inited".into(), json!(m.is_initialized_notification()));
    if let ClientMessage::Request(r) = m {
        acc.insert("is_init2".into(), json!(r.request.is_initialize_request()));
        let mf = MessageFromClient::from(r.request.clone());
        acc.insert("is_init3".into(), json!(mf.is_initialize_request()));
        if let RequestFromClient::ClientRequest(ClientRequest::CallToolRequest(c)) = &r.request {
            acc.insert("tool_name".into(), json!(c.tool_name()));
        }
    }
    if let ClientMessage::Notification(r) = m {
        acc.insert("is_inited2".into(), json!(r.notification.is_initialized_notification()));
        let mf = MessageFromClient::from(r.notification.clone());
        acc.insert("is_inited3".into(), json!(mf.is_initialized_notification()));
    }
}
fn acc_server(m: &ServerMessage, acc: &mut serde_json::Map<String, Value>) {
    if let ServerMessage::Response(r) = m {
        if let ResultFromServer::ServerResult(ServerResult::CallToolResult(c)) = &r.result {
            acc.insert("content".into(), content_acc(&c.content));
        }
    }
    if let ServerMessage::Notification(r) = m {
        acc.insert("method2".into(), json!(r.notification.method()));
    }
}

#[cfg(not(feature = "v2025_06_18"))]
side!(
    client, ClientMessage, ClientMessages, MessageFromClient, MessagesFromClient, ClientJsonrpcRequest,
    ClientJsonrpcNotification, ClientJsonrpcResponse, RequestFromClient, NotificationFromClient, ResultFromClient,
    ClientRequest, ClientNotification, ClientResult,
    [InitializeRequest, PingRequest, ListResourcesRequest, ListResourceTemplatesRequest, ReadResourceRequest,
     SubscribeRequest, UnsubscribeRequest, ListPromptsRequest, GetPromptRequest, ListToolsRequest, CallToolRequest,
     SetLevelRequest, CompleteRequest],
    [CancelledNotification, InitializedNotification, ProgressNotification, RootsListChangedNotification],
    [CreateMessageResult, ListRootsResult, Result], acc_client
);
#[cfg(feature = "v2025_06_18")]
side!(
    client, ClientMessage, ClientMessages, MessageFromClient, MessagesFromClient, ClientJsonrpcRequest,
    ClientJsonrpcNotification, ClientJsonrpcResponse, RequestFromClient, NotificationFromClient, ResultFromClient,
    ClientRequest, ClientNotification, ClientResult,
    [InitializeRequest, PingRequest, ListResourcesRequest, ListResourceTemplatesRequest, ReadResourceRequest,
     SubscribeRequest, UnsubscribeRequest, ListPromptsRequest, GetPromptRequest, ListToolsRequest, CallToolRequest,
     SetLevelRequest, CompleteRequest],
    [CancelledNotification, InitializedNotification, ProgressNotification, RootsListChangedNotification],
    [CreateMessageResult, ListRootsResult, ElicitResult, Result], acc_client
);
#[cfg(not(feature = "v2025_06_18"))]
side!(
    server, ServerMessage, ServerMessages, MessageFromServer, MessagesFromServer, ServerJsonrpcRequest,
    ServerJsonrpcNotification, ServerJsonrpcResponse, RequestFromServer, NotificationFromServer, ResultFromServer,
    ServerRequest, ServerNotification, ServerResult,
    [PingRequest, CreateMessageRequest, ListRootsRequest],
    [CancelledNotification, ProgressNotification, ResourceListChangedNotification, ResourceUpdatedNotification,
     PromptListChangedNotification, ToolListChangedNotification, LoggingMessageNotification],
    [InitializeResult, ListResourcesResult, ListResourceTemplatesResult, ReadResourceResult, ListPromptsResult,
     GetPromptResult, ListToolsResult, CallToolResult, CompleteResult, Result], acc_server
);
#[cfg(feature = "v2025_06_18")]
side!(
    server, ServerMessage, ServerMessages, MessageFromServer, MessagesFromServer, ServerJsonrpcRequest,
    ServerJsonrpcNotification, ServerJsonrpcResponse, RequestFromServer, NotificationFromServer, ResultFromServer,
    ServerRequest, ServerNotification, ServerResult,
    [PingRequest, CreateMessageRequest, ListRootsRequest, ElicitRequest],
    [CancelledNotification, ProgressNotification, ResourceListChangedNotification, ResourceUpdatedNotification,
     PromptListChangedNotification, ToolListChangedNotification, LoggingMessageNotification],
    [InitializeResult, ListResourcesResult, ListResourceTemplatesResult, ReadResourceResult, ListPromptsResult,
     GetPromptResult, ListToolsResult, CallToolResult, CompleteResult, Result], acc_server
);

fn mkerr(v: &Value) -> Value {
    let data = v.get("data").cloned();
    let msg = v.get("message").and_then(Value::as_str).map(str::to_string);
    let which = s(v, "which");
    macro_rules! pick {
        ($T:ident, $($n:ident),*) => {
            match which { $(stringify!($n) => Some($T::$n()),)* _ => None }
        };
    }
    let code_of = |w: &str| match w {
        "parse_error" => RpcErrorCodes::PARSE_ERROR,
        "invalid_request" => RpcErrorCodes::INVALID_REQUEST,
        "method_not_found" => RpcErrorCodes::METHOD_NOT_FOUND,
        "invalid_params" => RpcErrorCodes::INVALID_PARAMS,
        _ => RpcErrorCodes::INTERNAL_ERROR,
    };
    let id = v.get("id").and_then(rid);
    match n(v, "route") {
        0 | 1 => {
            let mut e = pick!(RpcError, method_not_found, invalid_params, invalid_request, internal_error, parse_error).unwrap();
            if let Some(m) = msg { e = e.with_message(m); }
            if data.is_some() { e = e.with_data(data); }
            let text = e.to_string();
            let e2 = RpcError::from_str(&text).unwrap();
            if n(v, "route") == 0 {
                json!({"ok": {"enc": JsonrpcError::new(e2, id.unwrap()).to_string()}})
            } else if s(v, "side") == "c" {
                match ClientMessage::from_message(MessageFromClient::from(e2), id) {
                    Ok(m) => json!({"ok": {"enc": m.to_string()}}),
                    Err(e) => rpc(e),
                }
            } else {
                match ServerMessage::from_message(MessageFromServer::from(e2), id) {
                    Ok(m) => json!({"ok": {"enc": m.to_string()}}),
                    Err(e) => rpc(e),
                }
            }
        }
        2 => json!({"ok": {"enc": JsonrpcError::create(id.unwrap(), code_of(which), msg.unwrap_or_default(), data).to_string()}}),
        3 => {
            let e = RpcError::new(code_of(which), msg.unwrap_or_default(), data);
            json!({"ok": {"enc": JsonrpcError::new(e, id.unwrap()).to_string()}})
        }
        _ => {
            // the SDK-level error, carried inside an error reply
            let mut e = if n(v, "route") == 6 {
                let code = match which {
                    "connection_closed" => SdkErrorCodes::CONNECTION_CLOSED,
                    "request_timeout" => SdkErrorCodes::REQUEST_TIMEOUT,
                    "resource_not_found" => SdkErrorCodes::RESOURCE_NOT_FOUND,
                    "bad_request" => SdkErrorCodes::BAD_REQUEST,
                    "session_not_found" => SdkErrorCodes::SESSION_NOT_FOUND,
                    "invalid_request" => SdkErrorCodes::INVALID_REQUEST,
                    "method_not_found" => SdkErrorCodes::METHOD_NOT_FOUND,
                    "invalid_params" => SdkErrorCodes::INVALID_PARAMS,
                    "parse_error" => SdkErrorCodes::PARSE_ERROR,
                    
                    _ => SdkErrorCodes::INTERNAL_ERROR,
                };
                SdkError::new(code, msg.clone().unwrap_or_default(), data.clone())
            } else if which == "request_timeout" {
                SdkError::request_timeout(n(v, "timeout") as u128)
            } else {
                pick!(SdkError, connection_closed, session_not_found, invalid_request, method_not_found, invalid_params,
                      internal_error, parse_error, resource_not_found, bad_request).unwrap()
            };
            if let Some(m) = msg { e = e.with_message(&m); }
            if data.is_some() { e = e.with_data(data); }
            let text = serde_json::to_string(&e).unwrap();
            let back: SdkError = serde_json::from_str(&text).unwrap();
            let r = RpcError { code: back.code, data: back.data.clone(), message: back.message.clone() };
            json!({"ok": {"enc": JsonrpcError::new(r, id.unwrap()).to_string(), "display": back.to_string()}})
        }
    }
}

fn toolerr(v: &Value) -> Value {
    let mk = || {
        let name = s(v, "name").to_string();
        let msg = v.get("message").and_then(Value::as_str).map(str::to_string);
        match s(v, "which") {
            "unknown" => CallToolError::unknown_tool(name),
            "invalid" => CallToolError::invalid_arguments(name, msg),
            "io" => CallToolError::new(std::io::Error::new(std::io::ErrorKind::Other, msg.unwrap_or_default())),
            "chain" => CallToolError::new(Chained::of(msg.unwrap_or_default(), &v["causes"])),
            _ => CallToolError::from_message(msg.unwrap_or_default()),
        }
    };
    let e = mk();
    let text = e.to_string();
    let causes = causes_of(&e);
    let id = rid(&v["id"]).unwrap();
    let res = match n(v, "route") {
        0 => CallToolResult::from(mk()),
        _ => CallToolResult::with_error(mk()),
    };
    let rp: RpcError = e.into();
    let m: ServerMessage = res.to_message(Some(id.clone())).unwrap();
    json!({"ok": {"text": text, "causes": causes, "enc": m.to_string(), "rpc": JsonrpcError::new(rp, id).to_string()}})
}

/// Relay through the generic, side-less JSON-RPC message type.
fn generic(v: &Value) -> Value {
    match serde_any::<JsonrpcMessage>(s(v, "text"), n(v, "dr")) {
        Ok(m) => {
            let name = match &m {
                JsonrpcMessage::Request(_) => "request",
                JsonrpcMessage::Notification(_) => "notification",
                JsonrpcMessage::Response(_) => "response",
                JsonrpcMessage::Error(_) => "error",
                #[allow(unreachable_patterns)]
                _ => "batch",
            };
            json!({"ok": {"kind": name, "enc": serde_json::to_string(&m).unwrap()}})
        }
        Err(e) => err(None, e, None),
    }
}

pub fn op(v: &Value) -> Value {
    let c = s(v, "side") == "c";
    match s(v, "op") {
        "recv" => if c { client::recv(v) } else { server::recv(v) },
        "build" => if c { client::build(v) } else { server::build(v) },
        "batch" => if c { client::batch(v) } else { server::batch(v) },
        "write" => if c { client::write(v) } else { server::write(v) },
        "read" => if c { client::read(v) } else { server::read(v) },
        "mkerr" => mkerr(v),
        "toolerr" => toolerr(v),
        "tie" => tie(v),
        "tie_make" => tie_make(v),
        "generic" => generic(v),
        "proto" => crate::common::proto(v, LATEST_PROTOCOL_VERSION),
        o => json!({"unsupported": o}),
    }
}

// ---- standing interests: what a notification is about, read and made through the typed forms ----

fn lookup(open: &Value, id: &RequestId) -> Value {
    let mut h: HashMap<RequestId, usize> = HashMap::new();
    for (i, x) in open.as_array().into_iter().flatten().enumerate() {
        if let Some(x) = rid(x) { h.insert(x, i); }
    }
    let found = h.get(id);
    // searched one by one, the answer is the same
    
    let mut one: Option<&usize> = None;
    for (x, i) in &h {
        if <&RequestId as PartialEq<RequestId>>::eq(&id, x) { one = Some(i); }
    }
    if one != found {
        return json!("found differently when searched one by one");
    }
    json!(found)
}
fn tie(v: &Value) -> Value {
    let t = s(v, "text");
    let o = if s(v, "side") == "c" {
        match ClientMessage::from_str(t) {
            Err(e) => return rpc(e),
            Ok(ClientMessage::Request(r)) => match r.request {
                RequestFromClient::ClientRequest(ClientRequest::SubscribeRequest(x)) => json!({"what": "subscribe", "uri": x.params.uri}),
                RequestFromClient::ClientRequest(ClientRequest::UnsubscribeRequest(x)) => json!({"what": "unsubscribe", "uri": x.params.uri}),
                RequestFromClient::ClientRequest(ClientRequest::PingRequest(x)) => json!({"what": "call", "token": x.params.and_then(|p| p.meta).and_then(|m| m.progress_token)}),
                _ => json!({"what": "other"}),
            },
            Ok(ClientMessage::Notification(n)) => match n.notification {
                NotificationFromClient::ClientNotification(ClientNotification::CancelledNotification(x)) => json!({"what": "cancelled", "id": x.params.request_id, "at": lookup(&v["open"], &x.params.request_id)}),
                _ => json!({"what": "other"}),
            },
            _ => json!({"what": "other"}),
        }
    } else {
        match ServerMessage::from_str(t) {
            Err(e) => return rpc(e),
            Ok(ServerMessage::Notification(n)) => match n.notification {
                NotificationFromServer::ServerNotification(x) => match x {
                    ServerNotification::ProgressNotification(x) => json!({"what": "progress", "token": x.params.progress_token, "progress": x.params.progress, "total": x.params.total}),
                    ServerNotification::ResourceUpdatedNotification(x) => json!({"what": "updated", "uri": x.params.uri}),
                    ServerNotification::ToolListChangedNotification(_) => json!({"what": "tools"}),
                    ServerNotification::PromptListChangedNotification(_) => json!({"what": "prompts"}),
                    ServerNotification::ResourceListChangedNotification(_) => json!({"what": "resources"}),
                    _ => json!({"what": "other"}),
                },
                _ => json!({"what": "other"}),
            },
            _ => json!({"what": "other"}),
        }
    };
    json!({"ok": o})
}
fn tie_make(v: &Value) -> Value {
    fn sv<T>(t: T) -> R<String, RpcError> where T: ToMessage<ServerMessage>, ServerMessage: FromMessage<T> { Ok(t.to_message(None)?.to_string()) }
    fn get<T: serde::de::DeserializeOwned>(v: &Value) -> T { serde_json::from_value(v.clone()).unwrap() }
    let uri = s(v, "uri").to_string();
    let r = match s(v, "what") {
        "progress" => {
            let mut p: ProgressNotificationParams = get(&json!({"progressToken": 0, "progress": 0}));
            p.progress_token = match &v["token"] {
                Value::String(x) => ProgressToken::String(x.clone()),
                x => ProgressToken::from(x.as_i64().unwrap()),
            };
            p.progress = v["progress"].as_f64().unwrap();
            p.total = v["total"].as_f64();
            sv(ProgressNotification::new(p))
        }
        "updated" => sv(ResourceUpdatedNotification::new(ResourceUpdatedNotificationParams { uri })),
        "tools" => sv(ToolListChangedNotification::new(None)),
        "prompts" => sv(PromptListChangedNotification::new(None)),
        "resources" => sv(ResourceListChangedNotification::new(None)),
        "cancelled" => CancelledNotification::new(CancelledNotificationParams { reason: v["reason"].as_str().map(str::to_string), request_id: rid(&v["id"]).unwrap() })
            .to_message(None).map(|m: ClientMessage| m.to_string()),
        w => return json!({"unsupported": w}),
    };
    match r {
        Ok(e) => json!({"ok": {"enc": e}}),
        Err(e) => rpc(e),
    }
}
