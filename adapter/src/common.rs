//! Shared plumbing of the per-version adapters: panic containment, faulty byte streams.
use serde_json::{json, Value};
use std::io::{self, Read, Write};

pub fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v.get(k).and_then(Value::as_str).unwrap_or("")
}
pub fn n(v: &Value, k: &str) -> u64 {
    v.get(k).and_then(Value::as_u64).unwrap_or(0)
}
pub fn b(v: &Value, k: &str) -> bool {
    v.get(k).and_then(Value::as_bool).unwrap_or(false)
}

pub struct Bad(pub Vec<String>);
impl Bad {
    pub fn req(&mut self, ok: bool, what: &str) {
        if !ok {
            self.0.push(what.to_string());
        }
    }
}

/// A reader that obeys a fault plan: a list of steps, each either a byte count to hand out at most,
/// -1 (interrupted), -2 (would block: a hard error), -3 (early end of file).
pub struct FaultyReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub cut: bool,
    pub dead: bool,
    pub plan: Vec<i64>,
    pub step: usize,
    pub fired: Vec<i64>,
}
impl Read for FaultyReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let step = self.plan.get(self.step).copied();
        self.step += 1;
        let max = match step {
            Some(-1) => {
                self.fired.push(-1);
                return Err(io::Error::from(io::ErrorKind::Interrupted));
            }
            // a broken connection stays broken
            _ if self.dead => return Err(io::Error::from(io::ErrorKind::ConnectionReset)),
            Some(-2) => {
                self.fired.push(-2);
                self.dead = true;
                return Err(io::Error::from(io::ErrorKind::ConnectionReset));
            }
            Some(-3) => {
                self.fired.push(-3);
                self.cut = true;
                return Ok(0);
            }
            _ if self.cut => return Ok(0),
            Some(k) if k > 0 => k as usize,
            _ => buf.len(),
        };
        let left = self.data.len() - self.pos;
        let k = max.min(left).min(buf.len());
        buf[..k].copy_from_slice(&self.data[self.pos..self.pos + k]);
        self.pos += k;
        Ok(k)
    }
}

/// A writer that obeys a fault plan: max bytes accepted per call, -1 interrupted, -2 hard error, -3 accepts nothing.
pub struct FaultyWriter {
    pub out: Vec<u8>,
    pub plan: Vec<i64>,
    pub step: usize,
    pub fired: Vec<i64>,
}
impl Write for FaultyWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let step = self.plan.get(self.step).copied();
        self.step += 1;
        let max = match step {
            Some(-1) => {
                self.fired.push(-1);
                return Err(io::Error::from(io::ErrorKind::Interrupted));
            }
            Some(-2) => {
                self.fired.push(-2);
                return Err(io::Error::from(io::ErrorKind::StorageFull));
            }
            Some(-3) => {
                self.fired.push(-3);
                return Ok(0);
            }
            Some(k) if k > 0 => {
                self.fired.push(k);
                k as usize
            }
            _ => buf.len(),
        };
        let k = max.min(buf.len());
        self.out.extend_from_slice(&buf[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub fn plan_of(v: &Value) -> Vec<i64> {
    v.get("plan")
        .and_then(Value::as_array)
        .map(|a| a.iter().filter_map(Value::as_i64).collect())
        .unwrap_or_default()
}

pub fn err(code: Option<i64>, message: String, data: Option<Value>) -> Value {
    json!({"err": {"code": code, "message": message, "data": data}})
}

/// Decode a value of type `T` through one of serde's entry points.
pub fn serde_any<T: serde::de::DeserializeOwned>(text: &str, dr: u64) -> Result<T, String> {
    match dr {
        2 => serde_json::from_slice(text.as_bytes()).map_err(|e| e.to_string()),
        3 => serde_json::from_reader(text.as_bytes()).map_err(|e| e.to_string()),
        4 => serde_json::from_str::<Value>(text)
            .map_err(|e| e.to_string())
            .and_then(|v| serde_json::from_value(v).map_err(|e| e.to_string())),
        _ => serde_json::from_str(text).map_err(|e| e.to_string()),
    }
}

/// Write a message into a faulty sink: through serde_json's streaming writer, or through its Display.
pub fn write_faulty<T: serde::Serialize + std::fmt::Display>(m: &T, v: &Value) -> Value {
    let mut w = FaultyWriter { out: vec![], plan: plan_of(v), step: 0, fired: vec![] };
    let (full, r) = if n(v, "how") == 1 {
        (m.to_string(), write!(w, "{m}").map_err(|e| e.to_string()))
    } else {
        (serde_json::to_string(m).unwrap_or_default(), serde_json::to_writer(&mut w, m).map_err(|e| e.to_string()))
    };
    json!({"ok": r.is_ok(), "full": full, "written": String::from_utf8_lossy(&w.out), "bytes": w.out.len(), "fired": w.fired, "err": r.err()})
}

/// Read consecutive messages from one faulty byte stream; stops at the first failure.
pub fn read_faulty<T: serde::de::DeserializeOwned + serde::Serialize + std::fmt::Display>(
    bytes: &[u8],
    v: &Value,
) -> Value {
    let mut r = FaultyReader { data: bytes, pos: 0, cut: false, dead: false, plan: plan_of(v), step: 0, fired: vec![] };
    let mut got = vec![];
    let mut error = Value::Null;
    fn all<T: serde::de::DeserializeOwned + std::fmt::Display>(r: impl Read, got: &mut Vec<Value>, error: &mut Value) {
        for m in serde_json::Deserializer::from_reader(r).into_iter::<T>() {
            match m {
                Ok(m) => got.push(json!(m.to_string())),
                Err(e) => {
                    *error = json!({"text": e.to_string(), "io": e.is_io(), "eof": e.is_eof(), "syntax": e.is_syntax(), "data": e.is_data()});
                    break;
                }
            }
        }
    }
    match n(v, "buf") {
        0 => all::<T>(&mut r, &mut got, &mut error),
        k => all::<T>(io::BufReader::with_capacity(k as usize, &mut r), &mut got, &mut error),
    }
    json!({"got": got, "error": error, "fired": r.fired, "pos": r.pos})
}

/// Protocol version negotiation strings.
pub fn proto(v: &Value, own: &str) -> Value {
    use rust_mcp_schema::ProtocolVersion as P;
    match s(v, "what") {
        "parse" => match P::try_from(s(v, "text")) {
            Ok(p) => {
                let printed = p.to_string();
                let owned: String = p.into();
                json!({"ok": printed, "owned": owned})
            }
            Err(e) => json!({"err": e.to_string()}),
        },
        "cmp" => match (P::try_from(s(v, "a")), P::try_from(s(v, "b"))) {
            (Ok(a), Ok(b)) => json!({"ok": {"lt": a < b, "eq": a == b, "gt": a > b}}),
            _ => json!({"err": "unparsable"}),
        },
        _ => {
            let f = |d: bool| P::supported_versions(d).iter().map(|p| p.to_string()).collect::<Vec<_>>();
            json!({"ok": {"all": f(true), "stable": f(false), "latest": P::latest().to_string(), "own": own}})
        }
    }
}

/// A failure with causes behind it.
#[derive(Debug)]
pub struct Chained(String, Option<Box<Chained>>);
impl Chained {
    pub fn of(text: String, causes: &Value) -> Chained {
        let mut next = None;
        for c in causes.as_array().into_iter().flatten().rev() {
            next = Some(Box::new(Chained(c.as_str().unwrap_or("").to_string(), next)));
        }
        Chained(text, next)
    }
}
impl std::fmt::Display for Chained {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Chained {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.1.as_ref().map(|x| &**x as &(dyn std::error::Error + 'static))
    }
}
pub fn causes_of(e: &dyn std::error::Error) -> Vec<String> {
    let mut out = vec![];
    let mut at = e.source();
    while let Some(x) = at {
        out.push(x.to_string());
        at = x.source();
    }
    out
}

/// Ids that are almost this one, each different from it and from each other.
pub fn near(id: &Value) -> Vec<Value> {
    match id {
        Value::String(s) => {
            let mut v = vec![format!("{s}x"), format!("{s} "), format!("x{s}")];
            let mut c = s.chars();
            if c.next_back().is_some() {
                v.push(c.as_str().to_string());
                v.push(format!("{}\u{1}", c.as_str()));
            }
            for t in [s.to_uppercase(), s.to_lowercase(), s.trim().to_string(), s.chars().rev().collect()] {
                if t != *s && !v.contains(&t) {
                    v.push(t);
                }
            }
            v.sort();
            v.dedup();
            v.into_iter().filter(|t| t != s).map(Value::String).collect()
        }
        n => {
            let n = n.as_i64().unwrap_or(0);
            let mut v = vec![n.wrapping_add(1), n.wrapping_sub(1), n.wrapping_add(1 << 32), n ^ i64::MIN, n ^ (1 << 53)];
            let m = n.wrapping_neg();
            if m != n && !v.contains(&m) {
                v.push(m);
            }
            v.sort();
            v.dedup();
            v.into_iter().filter(|x| *x != n).map(|x| Value::Number(x.into())).collect()
        }
    }
}
