//! The protocol specification's own JSON Schemas: a generator of valid values and a validator.
use crate::rng::Rng;
use serde_json::{json, Map, Value};
use std::collections::HashMap;

pub struct Schemas {
    pub ver: &'static str,
    defs: HashMap<String, Value>,
}

const ALIASES: &[(&str, &str)] = &[
    ("Error", "RpcError"),
    ("ElicitRequestURLParams", "ElicitRequestUrlParams"),
    ("JSONRPCError", "JsonrpcError"),
    ("JSONRPCNotification", "JsonrpcNotification"),
    ("JSONRPCRequest", "JsonrpcRequest"),
    ("JSONRPCResponse", "JsonrpcResponse"),
    ("JSONRPCErrorResponse", "JsonrpcErrorResponse"),
    ("JSONRPCResultResponse", "JsonrpcResultResponse"),
    ("JSONObject", "JsonObject"),
    ("JSONValue", "JsonValue"),
    ("JSONArray", "JsonArray"),
    ("JSONRPCMessage", "JsonrpcMessage"),
    ("JSONRPCBatchRequest", "JsonrpcBatchRequest"),
    ("JSONRPCBatchResponse", "JsonrpcBatchResponse"),
];

/// The library's spelling of a type name of the specification.
pub fn canonical(name: &str) -> &str {
    ALIASES.iter().find(|(a, _)| *a == name).map(|(_, b)| *b).unwrap_or(name)
}

impl Schemas {
    pub fn load(ver: &'static str, text: &str) -> Schemas {
        let v: Value = serde_json::from_str(text).expect("schema data");
        let mut defs: HashMap<String, Value> = HashMap::new();
        for (k, x) in v.as_object().unwrap() {
            defs.insert(k.clone(), x.clone());
        }
        for (a, b) in ALIASES {
            if let Some(x) = defs.get(*b).cloned() {
                defs.entry(a.to_string()).or_insert(x);
            }
        }
        Schemas { ver, defs }
    }
    /// The names of the types, as the library spells them.
    pub fn names(&self) -> Vec<String> {
        let mut n: Vec<String> = self.defs.keys().filter(|k| canonical(k) == k.as_str()).cloned().collect();
        n.sort();
        n
    }
    pub fn has(&self, name: &str) -> bool {
        self.defs.contains_key(name)
    }
    pub fn get(&self, name: &str) -> &Value {
        self.defs.get(name).unwrap_or_else(|| panic!("{}: no schema {name}", self.ver))
    }
    pub fn resolve<'a>(&'a self, mut s: &'a Value) -> &'a Value {
        while let Some(r) = s.get("$ref").and_then(Value::as_str) {
            s = self.get(r.rsplit('/').next().unwrap());
        }
        s
    }
    /// An object schema with `allOf` folded in.
    pub fn flat(&self, s: &Value) -> Value {
        let s = self.resolve(s);
        let Some(parts) = s.get("allOf").and_then(Value::as_array) else { return s.clone() };
        let mut props = Map::new();
        let mut req = vec![];
        let mut own = s.clone();
        own.as_object_mut().unwrap().remove("allOf");
        let mut all = parts.clone();
        all.push(own);
        let mut open = false;
        for p in &all {
            let f = self.flat(p);
            if let Some(m) = f.get("properties").and_then(Value::as_object) {
                for (k, v) in m {
                    props.insert(k.clone(), v.clone());
                }
            }
            if let Some(a) = f.get("required").and_then(Value::as_array) {
                req.extend(a.clone());
            }
            open |= f.get("additionalProperties").is_some();
        }
        let mut o = json!({"type": "object", "properties": props, "required": req});
        if open {
            o["x-allof-open"] = json!(true);
        }
        o
    }
}

pub struct Gen<'a> {
    pub sch: &'a Schemas,
    /// Probability that an optional member is present.
    pub opt: f64,
    /// Probability that an open object gets extra members.
    pub vendor: f64,
    /// Probability of drawing from the hostile string pool.
    pub odd: f64,
    pub depth: usize,
}

const ODD_STR: &[&str] = &[
    "", " ", "null", "true", "0", "2.0", "{}", "[]", "{\"jsonrpc\":\"2.0\"}", "a\nb", "\r\n", "\t", "\u{0}", "\u{1f}", "\"", "\\",
    "\\u0041", "é", "日本語", "🦀🚀", "\u{2028}\u{2029}", "\u{feff}", "a/b/c", "~", "\u{7f}", "𝒳", "ﷺ", "e\u{301}", "$ref", "__proto__",
    "tools/call", "notifications/initialized", "complete", "input_required", "text", "object", "string", "-1", "1e400", "9223372036854775808",
    "</script>", "\u{ffff}", "\u{10ffff}", "%00", "id", "method", "result", "error",
];
const WORDS: &[&str] = &["alpha", "beta", "gamma", "delta", "weather", "search", "read_file", "x", "tool-1", "A", "name", "user", "notes.txt"];
const MAP_KEYS: &[&str] = &["a", "b", "key", "type", "name", "id", "method", "params", "jsonrpc", "result", "error", "text", "é", "k\"q", "k\nn", "x.y/z", "", "uri", "data", "value", "content", "_meta", "taskId", "0", "-", "mode", "message", "action"];
pub const VENDOR_KEYS: &[&str] = &[
    "x_a", "x_b", "com.example/k", "x_é", "x_\"q\"", "x_\n", "x_type", "x_0", "com.example.deep/trace-id", "x_", "mcp.dev/flag", "modelcontextprotocol.io/n", "io.modelcontextprotocol/x", "api.mcp.com/v",
    "progress_token", "_private", "X-Trace",
];

const NUMS: &[f64] = &[0.0, 1.0, 0.5, 0.25, 2.0, 100.0, -1.0, 1.5, -0.125, 1e15, 12345.0625, 562949953421311.0, 3.0, -65536.5, 0.0009765625];
const INTS: &[i64] = &[0, 1, -1, 2, 7, 42, 100, 127, 128, 255, 256, 65535, 65536, 2147483647, 2147483648, -2147483648, -2147483649, 4294967295, 4294967296, 9007199254740991, 9007199254740992, 9007199254740993, -9007199254740993, i64::MAX, i64::MIN, i64::MAX - 1];

pub fn b64(r: &mut Rng) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let n = if r.p(0.001) { r.below(30_000) * 4 } else if r.p(0.02) { r.below(400) * 4 } else { r.below(12) * 4 };
    let mut s: String = (0..n).map(|_| *r.pick(A) as char).collect();
    if n > 0 && r.p(0.4) {
        s.truncate(n - 1);
        s.push('=');
    }
    s
}

/// A string no list of examples contains: random characters of every width, random length, odd edges.
pub fn wild_string(r: &mut Rng) -> String {
    let n = match r.below(12) {
        0..=5 => 1 + r.below(12),
        6..=8 => 1 + r.below(80),
        9 => *r.pick(&[15usize, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025]),
        10 => r.below(700),
        _ => 2 + r.below(5),
    };
    let kind = r.below(6);
    let mut s = String::new();
    for _ in 0..n {
        let k = if kind == 5 { r.below(5) } else { kind };
        s.push(match k {
            0 => *r.pick(&['a', 'b', 'Z', '0', '9', '_', '-', '.', '/']),
            1 => (0x20 + r.below(0x5f)) as u8 as char,
            2 => char::from_u32(r.below(0x30) as u32).unwrap(),
            3 => char::from_u32(0x80 + r.below(0x780) as u32).unwrap(),
            _ => loop {
                let top = *r.pick(&[0x3000u32, 0xffff, 0x10ffff]);
                if let Some(c) = char::from_u32(r.below(top as usize + 1) as u32) {
                    break c;
                }
            },
        });
    }
    match r.below(10) {
        0 => format!(" {s}"),
        1 => format!("{s} "),
        2 => s.to_uppercase(),
        3 => r.below(1 << 40).to_string(),
        _ => s,
    }
}

impl Gen<'_> {
    pub fn string(&self, r: &mut Rng) -> String {
        if r.p(0.0002) {
            // a long one
            let top = *r.pick(&[2_000usize, 10_000, 70_000]);
            let n = top + r.below(top);
            let part = wild_string(r);
            let mut s = String::new();
            while s.len() < n {
                s.push_str(&part);
                s.push('x');
            }
            return s;
        }
        if r.p(0.004 + 0.1 * self.odd) {
            return wild_string(r);
        }
        if r.p(self.odd) {
            let mut s = r.pick(ODD_STR).to_string();
            if r.p(0.25) {
                s.push_str(r.pick(ODD_STR));
            }
            if r.p(0.03) {
                let n = r.below(4000);
                s = std::iter::repeat(if s.is_empty() { "é".to_string() } else { s }).take(n / 4 + 1).collect();
            }
            s
        } else {
            r.pick(WORDS).to_string()
        }
    }
    pub fn int(&self, r: &mut Rng) -> i64 {
        match r.below(20) {
            0..=10 => *r.pick(INTS),
            11 => r.next() as i64,
            12 => (r.next() >> r.below(64)) as i64,
            13 => {
                let x = if r.p(0.5) { 1i64 << r.below(63) } else { 10i64.pow(r.below(19) as u32) };
                let x = x + r.range(-1, 1);
                if r.p(0.3) { -x } else { x }
            }
            _ => r.range(-1000, 1000),
        }
    }
    /// A number with a fraction that every correct reader and printer keeps exactly.
    pub fn num(&self, r: &mut Rng) -> f64 {
        match r.below(10) {
            0..=5 => *r.pick(NUMS),
            6 | 7 => r.range(-5_000_000, 5_000_000) as f64 / 64.0,
            8 => self.small(r),
            _ => {
                // up to fifteen decimal digits and a small exponent: exact by any correct method
                let x = r.range(-999_999_999_999_999, 999_999_999_999_999) / 10i64.pow(r.below(15) as u32);
                format!("{x}e-{}", r.below(19)).parse().unwrap()
            }
        }
    }
    /// A number between 0 and 1.
    fn small(&self, r: &mut Rng) -> f64 {
        let d = 1 + r.below(15) as u32;
        format!("{}e-{d}", r.below(10usize.pow(d))).parse().unwrap()
    }
    /// How many members: mostly few, now and then many.
    fn count(&self, r: &mut Rng, few: usize) -> usize {
        if r.p(0.02) {
            if r.p(0.012) {
                return 150 + r.below(400);
            }
            if r.p(0.15) { 20 + r.below(120) } else { 4 + r.below(20) }
        } else {
            r.below(few)
        }
    }
    fn key(&self, r: &mut Rng, pool: &[&str]) -> String {
        match r.below(40) {
            0 => wild_string(r),
            1 => self.string(r),
            _ => r.pick(pool).to_string(),
        }
    }
    /// Any JSON at all.
    pub fn any(&self, r: &mut Rng, d: usize) -> Value {
        match r.below(if d == 0 { 7 } else { 10 }) {
            0 => Value::Null,
            1 => json!(r.p(0.5)),
            2 => json!(self.int(r)),
            3 => json!(self.num(r)),
            4 | 5 => json!(self.string(r)),
            6 => {
                if r.p(0.2) { json!(*r.pick(&[u64::MAX, 1u64 << 63, (1u64 << 63) + 1])) } else { json!(self.int(r)) }
            }
            7 => {
                if r.p(0.01) {
                    // a deep nest
                    let mut x = self.any(r, 0);
                    let deep = if r.p(0.1) { 90 } else { 30 };
                    for _ in 0..5 + r.below(deep) {
                        x = if r.p(0.5) { json!([x]) } else { json!({ *r.pick(MAP_KEYS): x }) };
                    }
                    return x;
                }
                let n = self.count(r, 4);
                Value::Array((0..n).map(|_| self.any(r, d - 1)).collect())
            }
            _ => self.map(r, d - 1),
        }
    }
    /// Any JSON object.
    pub fn map(&self, r: &mut Rng, d: usize) -> Value {
        let n = self.count(r, 4);
        let mut m = Map::new();
        for _ in 0..n {
            m.insert(self.key(r, MAP_KEYS), self.any(r, d));
        }
        Value::Object(m)
    }
    /// Vendor members that cannot collide with the specification's.
    pub fn vendor_into(&self, r: &mut Rng, m: &mut Map<String, Value>) {
        for _ in 0..1 + r.below(3) {
            let k = if r.p(0.03) { format!("x_{}", wild_string(r)) } else { r.pick(VENDOR_KEYS).to_string() };
            m.insert(k, self.any(r, 2));
        }
    }
    pub fn named(&self, r: &mut Rng, name: &str) -> Value {
        self.value(r, self.sch.get(name), 0)
    }

    pub fn value(&self, r: &mut Rng, schema: &Value, d: usize) -> Value {
        let s = self.sch.resolve(schema);
        if let Some(c) = s.get("const") {
            return c.clone();
        }
        if let Some(e) = s.get("enum").and_then(Value::as_array) {
            return r.pick(e).clone();
        }
        if let Some(a) = s.get("anyOf").and_then(Value::as_array) {
            // deep down, take the last alternative, which is never the recursive one
            let i = if d > self.depth + 3 { a.len() - 1 } else { r.below(a.len()) };
            return self.value(r, &a[i], d);
        }
        if s.get("allOf").is_some() {
            let f = self.sch.flat(s);
            return self.object(r, &f, d);
        }
        let ty = match s.get("type") {
            Some(Value::String(t)) => t.as_str(),
            Some(Value::Array(a)) => {
                let i = r.below(a.len());
                a[i].as_str().unwrap()
            }
            _ if s.get("properties").is_some() => "object",
            _ => return self.any(r, 3),
        };
        match ty {
            "object" => self.object(r, s, d),
            "array" => {
                let max = s.get("maxItems").and_then(Value::as_u64).unwrap_or(3).min(3) as usize;
                let mut n = if d > self.depth { r.below(2) } else { r.below(max + 1) };
                if d <= self.depth && s.get("maxItems").is_none() && r.p(0.02) {
                    n = self.count(r, 4) + r.below(9);
                }
                let any = json!({});
                let items = s.get("items").unwrap_or(&any);
                let mut a: Vec<Value> = (0..n).map(|_| self.value(r, items, d + 1)).collect();
                if n > 1 && r.p(0.1) {
                    // the same thing twice is two things, next to each other or not
                    let j = r.below(n);
                    let i = if r.p(0.5) { (j + 1) % n } else { r.below(n) };
                    a[i] = a[j].clone();
                }
                Value::Array(a)
            }
            "string" => match s.get("format").and_then(Value::as_str) {
                Some("byte") => json!(b64(r)),
                Some("uri") if r.p(0.05) => json!(format!("file:///{}", (0..1 + r.below(40)).map(|_| *r.pick(&['a', 'Z', '7', '/', '.', '~', '?', '#', '=', '&', '+', ':', '@'])).collect::<String>())),
                Some("uri") => json!(*r.pick(&["file:///tmp/a.txt", "https://example.com/a?b=c#d", "urn:x:y", "file:///", "custom://h/%20%C3%A9", "data:text/plain;base64,QQ=="])),
                Some("uri-template") => json!(*r.pick(&["file:///{path}", "https://e.com/{a}{?b}", "x:{+y}"])),
                _ => json!(self.string(r)),
            },
            "integer" => {
                let min = s.get("minimum").and_then(Value::as_f64);
                let mut x = self.int(r);
                if let Some(m) = min {
                    if (x as f64) < m {
                        x = (m as i64).max(x.checked_abs().unwrap_or(5));
                    }
                }
                json!(x)
            }
            "number" => {
                let lo = s.get("minimum").and_then(Value::as_f64).unwrap_or(f64::MIN);
                let hi = s.get("maximum").and_then(Value::as_f64).unwrap_or(f64::MAX);
                let mut x = self.num(r);
                while x < lo || x > hi {
                    x = if r.p(0.5) { self.small(r) } else { *r.pick(NUMS) };
                }
                if x.fract() == 0.0 && r.p(0.6) { json!(x as i64) } else { json!(x) }
            }
            "boolean" => json!(r.p(0.5)),
            _ => Value::Null,
        }
    }

    fn object(&self, r: &mut Rng, s: &Value, d: usize) -> Value {
        let mut m = Map::new();
        let empty = Map::new();
        let props = s.get("properties").and_then(Value::as_object).unwrap_or(&empty);
        let req: Vec<&str> = s.get("required").and_then(Value::as_array).map(|a| a.iter().filter_map(Value::as_str).collect()).unwrap_or_default();
        for (k, ps) in props {
            let must = req.contains(&k.as_str());
            let opt = if d > self.depth { 0.1 * self.opt } else { self.opt };
            if !must && !r.p(opt) {
                continue;
            }
            let mut v = self.value(r, ps, d + 1);
            if !must {
                // An optional empty list means the same as its absence; absence is what is sent.
                for _ in 0..20 {
                    if !(v.as_array().is_some_and(Vec::is_empty) || v.is_null() || v.as_object().is_some_and(Map::is_empty) && r.p(0.7)) {
                        break;
                    }
                    v = self.value(r, ps, d + 1);
                }
                if v.as_array().is_some_and(Vec::is_empty) || v.is_null() {
                    continue;
                }
            }
            m.insert(k.clone(), v);
        }
        match s.get("additionalProperties") {
            None | Some(Value::Bool(false)) => {}
            Some(ap) => {
                let open = ap.as_bool() == Some(true) || ap.as_object().is_some_and(Map::is_empty);
                if open {
                    if props.is_empty() {
                        let want = if d > self.depth + 2 { 0 } else { self.count(r, 4) };
                        for _ in 0..want {
                            m.insert(self.key(r, MAP_KEYS), self.any(r, 2));
                        }
                    } else if r.p(self.vendor) {
                        self.vendor_into(r, &mut m);
                    }
                } else {
                    let n = if d > self.depth + 2 { 0 } else { self.count(r, 4) };
                    for _ in 0..n {
                        let k = self.key(r, MAP_KEYS);
                        let v = self.value(r, ap, d + 1);
                        m.insert(k, v);
                    }
                }
            }
        }
        Value::Object(m)
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    /// Everything the schema says, and no undeclared members unless left open.
    Closed,
    /// What any decoder must insist on: types, required members, enumerations and (optionally) constants.
    /// `arrays`: a list may stand for an object (its members by position); `nulls`: a required member that may be null may be missing.
    Lenient { consts: bool, arrays: bool, nulls: bool },
}

impl Schemas {
    pub fn ok(&self, schema: &Value, v: &Value, mode: Mode) -> bool {
        let s = self.resolve(schema);
        if s.get("allOf").is_some() {
            let f = self.flat(s);
            return self.ok_obj(&f, v, mode);
        }
        let arrays = matches!(mode, Mode::Lenient { arrays: true, .. });
        if arrays && v.is_array() && (s.get("properties").is_some() || s["type"] == "object" && s.get("additionalProperties").is_none()) {
            return true;
        }
        let consts = mode == Mode::Closed || matches!(mode, Mode::Lenient { consts: true, .. });
        if let Some(c) = s.get("const") {
            return if consts { c == v } else { std::mem::discriminant(c) == std::mem::discriminant(v) };
        }
        if let Some(e) = s.get("enum").and_then(Value::as_array) {
            return e.contains(v);
        }
        if let Some(a) = s.get("anyOf").and_then(Value::as_array) {
            return a.iter().any(|x| self.ok(x, v, mode));
        }
        let is = |t: &str| match t {
            "object" => v.is_object(),
            "array" => v.is_array(),
            "string" => v.is_string(),
            "integer" => v.as_i64().is_some() || (mode != Mode::Closed && v.is_number()),
            "number" => v.is_number(),
            "boolean" => v.is_boolean(),
            _ => v.is_null(),
        };
        match s.get("type") {
            Some(Value::String(t)) => {
                if !is(t) {
                    return false;
                }
            }
            Some(Value::Array(a)) => {
                if !a.iter().any(|t| is(t.as_str().unwrap())) {
                    return false;
                }
            }
            _ => {}
        }
        if mode == Mode::Closed {
            if let Some(x) = v.as_f64() {
                if s.get("minimum").and_then(Value::as_f64).is_some_and(|m| x < m) || s.get("maximum").and_then(Value::as_f64).is_some_and(|m| x > m) {
                    return false;
                }
            }
        }
        if let Some(a) = v.as_array() {
            if let Some(it) = s.get("items") {
                if !a.iter().all(|x| self.ok(it, x, mode)) {
                    return false;
                }
            }
        }
        if v.is_object() && (s.get("properties").is_some() || s.get("additionalProperties").is_some() || s.get("type").is_some()) {
            return self.ok_obj(s, v, mode);
        }
        true
    }
    fn ok_obj(&self, s: &Value, v: &Value, mode: Mode) -> bool {
        let Some(m) = v.as_object() else { return false };
        let empty = Map::new();
        let props = s.get("properties").and_then(Value::as_object).unwrap_or(&empty);
        let req: Vec<&str> = s.get("required").and_then(Value::as_array).map(|a| a.iter().filter_map(Value::as_str).collect()).unwrap_or_default();
        let nulls = matches!(mode, Mode::Lenient { nulls: true, .. });
        for k in &req {
            if !m.contains_key(*k) {
                if nulls && props.get(*k).is_some_and(|p| self.ok(p, &Value::Null, Mode::Closed)) {
                    continue;
                }
                return false;
            }
        }
        for (k, x) in m {
            match props.get(k) {
                Some(ps) => {
                    if mode != Mode::Closed && x.is_null() && !req.contains(&k.as_str()) {
                        continue;
                    }
                    if !self.ok(ps, x, mode) {
                        return false;
                    }
                }
                None => match s.get("additionalProperties") {
                    None | Some(Value::Bool(false)) => {
                        if mode == Mode::Closed && !s.get("x-allof-open").is_some() {
                            return false;
                        }
                    }
                    Some(ap) if ap.is_object() => {
                        if !self.ok(ap, x, mode) {
                            return false;
                        }
                    }
                    _ => {}
                },
            }
        }
        true
    }
}
