//! Parts assembled with the library's helper functions: the caller names a body and gets what the helpers made of it.
use super::enc;
#[cfg(feature = "v2024_11_05")]
use rust_mcp_schema::mcp_2024_11_05 as mcp;
#[cfg(feature = "v2025_03_26")]
use rust_mcp_schema::mcp_2025_03_26 as mcp;
#[cfg(feature = "v2025_06_18")]
use rust_mcp_schema::mcp_2025_06_18 as mcp;
#[cfg(feature = "v2025_11_25")]
use rust_mcp_schema::mcp_2025_11_25 as mcp;
#[cfg(feature = "v2026_07_28")]
use rust_mcp_schema::mcp_2026_07_28 as mcp;
#[cfg(feature = "vdraft")]
use rust_mcp_schema::mcp_draft as mcp;

use mcp::schema_utils::*;
use mcp::*;
use serde::de::DeserializeOwned;
use serde_json::{json, Map, Value};
#[allow(unused_imports)]
use std::str::FromStr;

fn get<T: DeserializeOwned>(v: &Value) -> std::result::Result<T, Value> {
    serde_json::from_value(v.clone()).map_err(|e| json!({"unread": e.to_string()}))
}

pub fn part(ty: &str, body: &Value, how: u64) -> Value {
    let r = match ty {
        "@tool" => tool(body, how),
        "@text" => text(body),
        "@word" => word(body),
        "@id" => get::<RequestId>(body).map(|x| json!({".display": x.to_string()})),
        "@content" => content(body),
        #[cfg(not(any(feature = "v2024_11_05", feature = "v2025_03_26")))]
        "@schema" => schema(body),
        #[cfg(not(any(feature = "v2024_11_05", feature = "v2025_03_26", feature = "v2025_06_18")))]
        "@contents" => contents(body, how),
        #[cfg(not(any(feature = "v2024_11_05", feature = "v2025_03_26", feature = "v2025_06_18")))]
        "@call" => call(body, how),
        #[cfg(not(any(feature = "v2024_11_05", feature = "v2025_03_26", feature = "v2025_06_18")))]
        "@custom" => custom(body),
        #[cfg(feature = "v2025_11_25")]
        "@answer" => answer(body),
        #[cfg(feature = "v2025_11_25")]
        "@meta" => meta(body, how),
        _ => Ok(json!({"none": true})),
    };
    r.unwrap_or_else(|e| e)
}
type R = std::result::Result<Value, Value>;

fn text(body: &Value) -> R {
    let s = body.as_str().unwrap_or("");
    Ok(json!({"enc": enc(&TextContent::from(s)), "owned": enc(&TextContent::from(s.to_string()))}))
}

fn word(body: &Value) -> R {
    let s = body.as_str().unwrap_or("");
    let mut o = Map::new();
    #[cfg(not(any(feature = "v2024_11_05", feature = "v2025_03_26", feature = "v2025_06_18")))]
    o.insert("Role".into(), match Role::from_str(s) {
        Ok(x) => json!({"got": x, "shown": x.to_string()}),
        Err(e) => json!({"refused": e.to_string()}),
    });
    #[cfg(not(any(feature = "v2024_11_05", feature = "v2025_03_26")))]
    o.insert("StringSchemaFormat".into(), match StringSchemaFormat::from_str(s) {
        Ok(x) => json!({"got": x, "shown": x.to_string()}),
        Err(e) => json!({"refused": e.to_string()}),
    });
    #[cfg(feature = "v2025_11_25")]
    {
        let x = IconTheme::from(s);
        o.insert("IconTheme".into(), json!({"got": x, "shown": x.to_string()}));
    }
    let _ = s;
    Ok(Value::Object(o))
}

#[cfg(any(feature = "v2024_11_05", feature = "v2025_03_26"))]
fn block(x: CallToolResultContentItem) -> CallToolResultContentItem {
    match x {
        CallToolResultContentItem::TextContent(t) => CallToolResultContentItem::text_content(t.text.clone(), t.annotations.clone()),
        CallToolResultContentItem::ImageContent(t) => CallToolResultContentItem::image_content(t.data.clone(), t.mime_type.clone(), t.annotations.clone()),
        #[cfg(feature = "v2025_03_26")]
        CallToolResultContentItem::AudioContent(t) => CallToolResultContentItem::audio_content(t.data.clone(), t.mime_type.clone(), t.annotations.clone()),
        CallToolResultContentItem::EmbeddedResource(t) => CallToolResultContentItem::embedded_resource(t.resource.clone(), t.annotations.clone()),
    }
}
#[cfg(not(any(feature = "v2024_11_05", feature = "v2025_03_26")))]
fn block(x: ContentBlock) -> ContentBlock {
    match x {
        ContentBlock::TextContent(t) if t.annotations.is_none() && t.meta.is_none() => ContentBlock::text_content(t.text.clone()),
        ContentBlock::ImageContent(t) if t.annotations.is_none() && t.meta.is_none() => ContentBlock::image_content(t.data.clone(), t.mime_type.clone()),
        ContentBlock::AudioContent(t) if t.annotations.is_none() && t.meta.is_none() => ContentBlock::audio_content(t.data.clone(), t.mime_type.clone()),
        ContentBlock::EmbeddedResource(t) if t.annotations.is_none() && t.meta.is_none() => ContentBlock::embedded_resource(t.resource.clone()),
        ContentBlock::ResourceLink(t) => ContentBlock::resource_link(t),
        other => other,
    }
}

#[cfg(any(feature = "v2024_11_05", feature = "v2025_03_26"))]
fn content(body: &Value) -> R {
    let x = block(get(body)?);
    let t = x.content_type().to_string();
    Ok(json!({"enc": enc(&x), ".content_type": t}))
}
#[cfg(not(any(feature = "v2024_11_05", feature = "v2025_03_26")))]
fn content(body: &Value) -> R {
    let x = block(get(body)?);
    let t = x.content_type().to_string();
    Ok(json!({"enc": enc(&x), ".content_type": t}))
}

/// A tool result with the given body, assembled step by step.
#[cfg(any(feature = "v2024_11_05", feature = "v2025_03_26"))]
fn tool(body: &Value, how: u64) -> R {
    let want: CallToolResult = get(body)?;
    let mut items = want.content.clone();
    let mut x = if items.is_empty() {
        want.clone()
    } else {
        match items.remove(0) {
            CallToolResultContentItem::TextContent(t) => CallToolResult::text_content(t.text.clone(), t.annotations.clone()),
            CallToolResultContentItem::ImageContent(t) => CallToolResult::image_content(t.data.clone(), t.mime_type.clone(), t.annotations.clone()),
            #[cfg(feature = "v2025_03_26")]
            CallToolResultContentItem::AudioContent(t) => CallToolResult::audio_content(t.data.clone(), t.mime_type.clone(), t.annotations.clone()),
            CallToolResultContentItem::EmbeddedResource(t) => CallToolResult::embedded_resource(t.resource.clone(), t.annotations.clone()),
        }
    };
    if how % 2 == 0 {
        x = x.with_meta(want.meta.clone());
    }
    x.content.extend(items.into_iter().map(block));
    x.is_error = want.is_error;
    if how % 2 == 1 {
        x = x.with_meta(want.meta.clone());
    }
    Ok(json!({"enc": enc(&x)}))
}
#[cfg(not(any(feature = "v2024_11_05", feature = "v2025_03_26")))]
fn tool(body: &Value, how: u64) -> R {
    let want: CallToolResult = get(body)?;
    let items = want.content.clone();
    let k = (how as usize / 8) % (items.len() + 1);
    macro_rules! run_of {
        ($v:ident, $f:ident) => {{
            let run: Vec<_> = items.iter().map_while(|c| if let ContentBlock::$v(t) = c { Some(t.clone()) } else { None }).collect();
            let n = run.len();
            (CallToolResult::$f(run), n)
        }};
    }
    let (mut x, used) = if how % 2 == 0 {
        match items.first() {
            Some(ContentBlock::TextContent(_)) => run_of!(TextContent, text_content),
            Some(ContentBlock::ImageContent(_)) => run_of!(ImageContent, image_content),
            Some(ContentBlock::AudioContent(_)) => run_of!(AudioContent, audio_content),
            Some(ContentBlock::ResourceLink(_)) => run_of!(ResourceLink, resource_link),
            Some(ContentBlock::EmbeddedResource(_)) => run_of!(EmbeddedResource, embedded_resource),
            None => (CallToolResult::from_content(vec![]), 0),
        }
    } else {
        (CallToolResult::from_content(items[..k].iter().cloned().map(block).collect()), k)
    };
    x.is_error = want.is_error;
    #[cfg(any(feature = "v2026_07_28", feature = "vdraft"))]
    {
        x.result_type = want.result_type.clone();
    }
    let mut x = Some(x);
    let mut step = |i: u64| {
        let t = x.take().unwrap();
        x = Some(match i {
            0 => t.with_meta(want.meta.clone()),
            1 => match body.get("structuredContent") {
                Some(Value::Object(m)) => t.with_structured_content(m.clone()),
                _ => {
                    let mut t = t;
                    t.structured_content = want.structured_content.clone();
                    t
                }
            },
            _ => items[used..].iter().cloned().map(block).fold(t, |t, c| t.add_content(c)),
        });
    };
    let order: [u64; 3] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][(how / 2 % 6) as usize];
    for i in order {
        step(i);
    }
    Ok(json!({"enc": enc(&x.unwrap())}))
}

#[cfg(not(any(feature = "v2024_11_05", feature = "v2025_03_26")))]
fn schema(body: &Value) -> R {
    let Value::Object(m) = body else { return Ok(json!({"none": true})) };
    match PrimitiveSchemaDefinition::try_from(m) {
        Ok(x) => Ok(json!({"enc": enc(&x)})),
        Err(e) => Ok(json!({"unread": e.to_string()})),
    }
}

#[cfg(not(any(feature = "v2024_11_05", feature = "v2025_03_26", feature = "v2025_06_18")))]
fn contents(body: &Value, how: u64) -> R {
    macro_rules! go {
        ($t:ident, $f:ident) => {{
            let want: $t = get(body)?;
            let mut x = if how % 2 == 0 { $t::new(want.$f.clone(), want.uri.clone()) } else { $t::new(want.$f.clone(), "x:y".to_string()).with_uri(want.uri.clone()) };
            let first = how / 2 % 2 == 0;
            if first {
                if let Some(m) = want.mime_type.clone() { x = x.with_mime_type(m); }
            }
            if let Some(m) = want.meta.clone() { x = x.with_meta(m); }
            if !first {
                if let Some(m) = want.mime_type.clone() { x = x.with_mime_type(m); }
            }
            Ok(json!({"enc": enc(&x)}))
        }};
    }
    if body.get("text").is_some() { go!(TextResourceContents, text) } else { go!(BlobResourceContents, blob) }
}

#[cfg(feature = "v2025_11_25")]
fn call(body: &Value, how: u64) -> R {
    let want: CallToolRequestParams = get(body)?;
    let mut x = if how % 2 == 0 { CallToolRequestParams::new(want.name.clone()) } else { CallToolRequestParams::new(want.name.as_str()) };
    let order: [u64; 3] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][(how / 2 % 6) as usize];
    for i in order {
        match i {
            0 => if let Some(a) = want.arguments.clone() { x = x.with_arguments(a); },
            1 => if let Some(a) = want.meta.clone() { x = x.with_meta(a); },
            _ => if let Some(a) = want.task.clone() { x = x.with_task(a); },
        }
    }
    Ok(json!({"enc": enc(&x)}))
}
#[cfg(any(feature = "v2026_07_28", feature = "vdraft"))]
fn call(body: &Value, how: u64) -> R {
    let want: CallToolRequestParams = get(body)?;
    let mut x = if how % 2 == 0 { CallToolRequestParams::new(want.name.clone(), want.meta.clone()) } else { CallToolRequestParams::new(want.name.as_str(), want.meta.clone()) };
    let order: [u64; 3] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][(how / 2 % 6) as usize];
    for i in order {
        match i {
            0 => if let Some(a) = want.arguments.clone() { x = x.with_arguments(a); },
            1 => if let Some(a) = want.input_responses.clone() { x = x.with_input_responses(a); },
            _ => if let Some(a) = want.request_state.clone() { x = x.with_request_state(a); },
        }
    }
    Ok(json!({"enc": enc(&x)}))
}

/// A generic request or notification handed on as a custom one.
#[cfg(not(any(feature = "v2024_11_05", feature = "v2025_03_26", feature = "v2025_06_18")))]
fn custom(body: &Value) -> R {
    if body.get("id").is_some() {
        let j: JsonrpcRequest = get(body)?;
        let c = CustomRequest::from(j);
        Ok(json!({"enc": enc(&c), ".method": c.method, "params": c.params}))
    } else {
        let j: JsonrpcNotification = get(body)?;
        let c = CustomNotification::from(j);
        Ok(json!({"enc": enc(&c), ".method": c.method, "params": c.params}))
    }
}

#[cfg(feature = "v2025_11_25")]
fn answer(body: &Value) -> R {
    let mut o = Map::new();
    let mut put = |k: &str, v: Value| {
        o.insert(k.to_string(), v);
    };
    match body {
        Value::String(s) => {
            put("str", enc(&ElicitResultContent::from(s.as_str())));
            put("string", enc(&ElicitResultContent::from(s.clone())));
            put("prim str", enc(&ElicitResultContentPrimitive::from(s.as_str())));
            put("prim string", enc(&ElicitResultContentPrimitive::from(s.clone())));
        }
        Value::Number(n) => {
            if let Some(i) = n.as_i64() {
                put("int", enc(&ElicitResultContent::from(i)));
                put("prim int", enc(&ElicitResultContentPrimitive::from(i)));
            }
        }
        Value::Bool(b) => put("bool", enc(&ElicitResultContent::from(ElicitResultContentPrimitive::from(*b)))),
        Value::Array(a) => {
            let s: Vec<&str> = a.iter().filter_map(Value::as_str).collect();
            put("strs", enc(&ElicitResultContent::from(s.clone())));
            put("strings", enc(&ElicitResultContent::from(s.iter().map(|x| x.to_string()).collect::<Vec<String>>())));
        }
        _ => {}
    }
    Ok(Value::Object(o))
}

/// Metadata built item by item: `[[how, key, value], ...]`.
#[cfg(feature = "v2025_11_25")]
fn meta(body: &Value, _how: u64) -> R {
    let mut m: Map<String, Value> = Map::new();
    for it in body.as_array().into_iter().flatten() {
        let (h, k, v) = (it[0].as_u64().unwrap_or(0), it[1].as_str().unwrap_or("").to_string(), it[2].clone());
        m = match h {
            0 => m.add(k, v),
            1 => m.add_if(true, k, v),
            2 => m.add_if(false, k, v),
            3 => m.add_raw(k, v),
            _ => m.with_related_task_id(v.as_str().unwrap_or("").to_string()),
        };
    }
    let rel = m.related_task_id().map(|s| s.to_string());
    Ok(json!({"enc": enc(&m), "related": rel}))
}
