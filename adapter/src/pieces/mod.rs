//! Parts of messages, taken through every public way to build, wrap and name them.
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Map, Value};

#[cfg(feature = "v2024_11_05")]
#[path = "v2024_11_05.rs"]
mod ver;
#[cfg(feature = "v2025_03_26")]
#[path = "v2025_03_26.rs"]
mod ver;
#[cfg(feature = "v2025_06_18")]
#[path = "v2025_06_18.rs"]
mod ver;
#[cfg(feature = "v2025_11_25")]
#[path = "v2025_11_25.rs"]
mod ver;
#[cfg(feature = "v2026_07_28")]
#[path = "v2026_07_28.rs"]
mod ver;
#[cfg(feature = "vdraft")]
#[path = "vdraft.rs"]
mod ver;
mod hand;

pub fn part(v: &Value) -> Value {
    let ty = crate::common::s(v, "ty");
    if ty.starts_with('@') { hand::part(ty, &v["body"], crate::common::n(v, "how")) } else { ver::piece(ty, &v["body"]) }
}

fn put<T: Serialize>(o: &mut Map<String, Value>, k: &str, x: &T) {
    o.insert(k.to_string(), enc(x));
}
pub fn enc<T: Serialize>(x: &T) -> Value {
    match serde_json::to_string(x) {
        Ok(t) => json!({ "text": t }),
        Err(e) => json!({ "unencoded": e.to_string() }),
    }
}
fn word(o: &mut Map<String, Value>, k: &str, x: &str) {
    o.insert(format!(".{k}"), json!(x));
}
/// The same body read as the union it was wrapped in.
fn form<U: DeserializeOwned + Serialize>(o: &mut Map<String, Value>, u: &str, body: &Value, f: fn(&U) -> &'static str) {
    let r = match serde_json::from_value::<U>(body.clone()) {
        Ok(x) => {
            let mut e = enc(&x);
            e["kind"] = json!(f(&x));
            e
        }
        Err(e) => json!({ "unread": e.to_string() }),
    };
    o.insert(format!("read {u}"), r);
}
