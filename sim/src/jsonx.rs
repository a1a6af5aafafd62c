//! JSON helpers: semantic equality with the first difference, path access.
use crate::schema::VENDOR_KEYS;
use serde_json::{Number, Value};

pub fn num_eq(a: &Number, b: &Number) -> bool {
    if let (Some(x), Some(y)) = (a.as_i64(), b.as_i64()) {
        return x == y;
    }
    if let (Some(x), Some(y)) = (a.as_u64(), b.as_u64()) {
        return x == y;
    }
    if a.is_f64() || b.is_f64() {
        return a.as_f64() == b.as_f64();
    }
    false
}

/// `None` if equal, otherwise the path of the first difference and what it is.
pub fn diff(want: &Value, got: &Value) -> Option<(String, String)> {
    fn go(a: &Value, b: &Value, path: &mut Vec<String>) -> Option<(String, String)> {
        let here = |p: &Vec<String>, w: String| Some((p.join("/"), w));
        match (a, b) {
            (Value::Object(x), Value::Object(y)) => {
                for (k, v) in x {
                    path.push(k.replace('/', "~"));
                    match y.get(k) {
                        None => return here(path, "lost".into()),
                        Some(w) => {
                            if let Some(d) = go(v, w, path) {
                                return Some(d);
                            }
                        }
                    }
                    path.pop();
                }
                for k in y.keys() {
                    if !x.contains_key(k) {
                        path.push(k.replace('/', "~"));
                        return here(path, "invented".into());
                    }
                }
                None
            }
            (Value::Array(x), Value::Array(y)) => {
                if x.len() != y.len() {
                    return here(path, format!("length {} became {}", x.len(), y.len()));
                }
                for (i, (v, w)) in x.iter().zip(y).enumerate() {
                    path.push(i.to_string());
                    if let Some(d) = go(v, w, path) {
                        return Some(d);
                    }
                    path.pop();
                }
                None
            }
            (Value::Number(x), Value::Number(y)) if num_eq(x, y) => None,
            _ if a == b => None,
            _ => {
                let short = |v: &Value| v.to_string().chars().take(60).collect::<String>();
                here(path, format!("{} became {}", short(a), short(b)))
            }
        }
    }
    go(want, got, &mut vec![])
}
pub fn same(a: &Value, b: &Value) -> bool {
    diff(a, b).is_none()
}
pub fn at<'a>(v: &'a Value, path: &str) -> &'a Value {
    let mut x = v;
    for k in path.split('/').filter(|k| !k.is_empty()) {
        x = match x {
            Value::Object(m) => m.get(k).unwrap_or(&Value::Null),
            Value::Array(a) => k.parse::<usize>().ok().and_then(|i| a.get(i)).unwrap_or(&Value::Null),
            _ => &Value::Null,
        };
    }
    x
}
pub fn st<'a>(v: &'a Value, k: &str) -> &'a str {
    v.get(k).and_then(Value::as_str).unwrap_or("")
}
pub fn un(v: &Value, k: &str) -> u64 {
    v.get(k).and_then(Value::as_u64).unwrap_or(0)
}
/// Replace array indices and free-form keys in a difference path so that like differences share a signature.
pub fn generic_path(p: &str) -> String {
    // free keys are folded so that one cause has one signature
    const FREE: &[&str] = &["properties", "experimental", "inputRequests", "inputResponses", "extensions", "$defs"];
    const DEEP: &[&str] = &["_meta", "arguments", "metadata", "data", "structuredContent", "settings", "logging", "input"];
    let mut o: Vec<String> = vec![];
    let mut fold = false;
    for s in p.split('/') {
        if fold {
            o.push("*".into());
            fold = false;
            continue;
        }
        if !s.is_empty() && s.chars().all(|c| c.is_ascii_digit()) {
            o.push("#".into());
            continue;
        }
        if s.starts_with("x_") || s.starts_with("com.example") || VENDOR_KEYS.iter().any(|k| !k.starts_with("io.") && k.split('/').next() == Some(s)) {
            o.push("x_".into());
            break;
        }
        o.push(s.replace(['\n', '|'], "?"));
        if DEEP.contains(&s) && p.split('/').count() > o.len() {
            o.push("**".into());
            break;
        }
        fold = FREE.contains(&s);
    }
    o.join("/")
}

/// The same JSON text with members in sorted order: the library's own order of map members differs between processes.
pub fn canon(text: &str) -> String {
    serde_json::from_str::<Value>(text).map(|v| v.to_string()).unwrap_or_else(|_| text.to_string())
}

/// Well-formed JSON without repeated member names and without integers beyond 64 bits: the texts whose meaning is beyond doubt.
pub fn plain(text: &str) -> bool {
    if serde_json::from_str::<Value>(text).is_err() {
        return false;
    }
    let b = text.as_bytes();
    let mut stack: Vec<Option<std::collections::HashSet<String>>> = vec![];
    let mut i = 0;
    let mut key_next = false;
    while i < b.len() {
        match b[i] {
            b'{' => {
                stack.push(Some(Default::default()));
                key_next = true;
            }
            b'[' => {
                stack.push(None);
                key_next = false;
            }
            b'}' | b']' => {
                stack.pop();
                key_next = false;
            }
            b',' => key_next = matches!(stack.last(), Some(Some(_))),
            b'"' => {
                let s = i;
                i += 1;
                while b[i] != b'"' {
                    i += if b[i] == b'\\' { 2 } else { 1 };
                }
                if key_next {
                    let k: String = serde_json::from_str(&text[s..=i]).unwrap_or_default();
                    if let Some(Some(set)) = stack.last_mut() {
                        if !set.insert(k) {
                            return false;
                        }
                    }
                    key_next = false;
                }
            }
            b'-' | b'0'..=b'9' => {
                let s = i;
                while i + 1 < b.len() && matches!(b[i + 1], b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') {
                    i += 1;
                }
                let n = &text[s..=i];
                if n == "-0" || !n.contains(['.', 'e', 'E']) && n.parse::<i64>().is_err() && n.parse::<u64>().is_err() {
                    return false;
                }
            }
            _ => {}
        }
        i += 1;
    }
    true
}
