//! The simulated world: event queue, clock, links with faults, node crashes, and the execution record.
use crate::check::Viol;
use crate::rng::*;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashSet};

/// How hostile the network of a run is.
#[derive(Clone, Debug)]
pub struct Profile {
    pub lat: u64,
    pub loss: f64,
    pub dup: f64,
    pub corrupt: f64,
    pub jump: f64,
}
impl Profile {
    pub fn from(v: &Value) -> Profile {
        let f = |k: &str| v[k].as_f64().unwrap_or(0.0);
        Profile { lat: v["lat"].as_u64().unwrap_or(10), loss: f("loss"), dup: f("dup"), corrupt: f("corrupt"), jump: f("jump") }
    }
    pub fn draw(r: &mut Rng, corrupt: f64) -> Value {
        let z = |r: &mut Rng, xs: &[f64]| *r.pick(xs);
        json!({"lat": *r.pick(&[1u64, 5, 20, 80, 300]), "loss": z(r, &[0.0, 0.0, 0.05, 0.15, 0.3]), "dup": z(r, &[0.0, 0.05, 0.15, 0.3]),
               "corrupt": if corrupt > 0.0 { z(r, &[corrupt, corrupt / 2.0, corrupt * 1.5]) } else { 0.0 }, "jump": z(r, &[0.0, 0.02, 0.1])})
    }
}

/// One copy of a packet that will arrive.
pub struct Copy {
    pub delay: u64,
    pub corrupt: Option<Value>,
}

/// Print the trace as it grows, for runs that end their process.
pub static STREAM: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub struct World<E> {
    pub now: u64,
    seq: u64,
    q: BTreeMap<(u64, u64), E>,
    pub heal: u64,
    net_seed: u64,
    prof: Profile,
    explicit: Option<Map<String, Value>>,
    pub fired: Map<String, Value>,
    pub hash: u64,
    pub order: u64,
    pub steps: u64,
    pub count: BTreeMap<&'static str, u64>,
    pub shapes: HashSet<u64>,
    pub viols: Vec<Viol>,
    pub trace: Option<Vec<String>>,
    times: std::collections::HashMap<String, u64>,
}

impl<E> World<E> {
    pub fn new(plan: &Value, trace: bool) -> Self {
        World {
            now: 0,
            seq: 0,
            q: BTreeMap::new(),
            heal: plan["heal"].as_u64().unwrap_or(0),
            net_seed: plan["net_seed"].as_u64().unwrap_or(0),
            prof: Profile::from(&plan["prof"]),
            explicit: plan["faults"].as_object().cloned(),
            fired: Map::new(),
            hash: 0,
            order: 0,
            steps: 0,
            count: BTreeMap::new(),
            shapes: HashSet::new(),
            viols: vec![],
            trace: if trace { Some(vec![]) } else { None },
            times: Default::default(),
        }
    }
    pub fn at(&mut self, t: u64, e: E) {
        self.seq += 1;
        self.q.insert((t.max(self.now), self.seq), e);
    }
    pub fn after(&mut self, d: u64, e: E) {
        self.at(self.now + d, e)
    }
    pub fn pop(&mut self) -> Option<E> {
        let ((t, _), e) = self.q.pop_first()?;
        self.now = t;
        self.steps += 1;
        Some(e)
    }
    pub fn bump(&mut self, k: &'static str) {
        *self.count.entry(k).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.count.entry(k).or_insert(0) += n;
    }
    /// Record one observable step; `what` fixes the interleaving, `detail` the contents.
    pub fn note(&mut self, what: &str, detail: &str) {
        self.order = hash_str(self.order, what);
        self.hash = hash_str(hash_str(self.hash ^ self.now, what), detail);
        if let Some(t) = &mut self.trace {
            let d: String = detail.chars().take(400).collect();
            let l = format!("t={} {what} {d}", self.now);
            if STREAM.load(std::sync::atomic::Ordering::Relaxed) {
                println!("{l}");
            }
            t.push(l);
        }
    }
    /// A stream of deterministic choices tied to a named decision, independent of every other decision.
    pub fn choice(&self, key: &str) -> Rng {
        Rng::new(hash_str(self.net_seed, key))
    }
    /// The fate of one packet on one link.
    pub fn link(&mut self, key: &str) -> Vec<Copy> {
        let f = match &self.explicit {
            Some(m) => m.get(key).cloned().unwrap_or(Value::Null),
            None => {
                let mut r = self.choice(key);
                let mut f = Map::new();
                let d = 1 + r.below(self.prof.lat as usize) as u64;
                f.insert("d".into(), json!(d));
                if self.now < self.heal {
                    if r.p(self.prof.loss) {
                        f.insert("loss".into(), json!(true));
                    }
                    if r.p(self.prof.dup) {
                        f.insert("dup".into(), json!(1 + r.below(self.prof.lat as usize * 3) as u64));
                    }
                    if r.p(self.prof.corrupt) {
                        f.insert("c".into(), damage_spec(&mut r));
                    }
                    if r.p(self.prof.jump) {
                        f.insert("d".into(), json!(d + 200 + r.below(2000) as u64));
                        f.insert("stall".into(), json!(true));
                    }
                }
                Value::Object(f)
            }
        };
        if f.is_object() {
            self.fired.insert(key.to_string(), f.clone());
        }
        let d = f["d"].as_u64().unwrap_or(1);
        let mut v = vec![];
        if f.get("stall").is_some() {
            self.bump("delay_spike");
        }
        if f.get("loss").is_some() {
            self.bump("loss");
        } else {
            let c = f.get("c").cloned();
            if c.is_some() {
                self.bump("corruption");
            }
            v.push(Copy { delay: d, corrupt: c });
        }
        if let Some(x) = f["dup"].as_u64() {
            self.bump("duplication");
            v.push(Copy { delay: x, corrupt: None });
        }
        v
    }
}

pub fn damage_spec(r: &mut Rng) -> Value {
    const K: &[&str] = &["trunc", "flip", "del", "ins", "splice", "dropkey", "retype", "env", "env", "wrap", "dropkey", "retype", "swap", "tail", "unicode"];
    json!({"k": *r.pick(K), "r": r.next() >> 12})
}

fn paths(v: &Value, here: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                here.push(k.clone());
                out.push(here.clone());
                paths(x, here, out);
                here.pop();
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                here.push(i.to_string());
                out.push(here.clone());
                paths(x, here, out);
                here.pop();
            }
        }
        _ => {}
    }
}
fn slot<'a>(v: &'a mut Value, path: &[String]) -> Option<&'a mut Value> {
    let mut x = v;
    for k in path {
        x = match x {
            Value::Object(m) => m.get_mut(k)?,
            Value::Array(a) => a.get_mut(k.parse::<usize>().ok()?)?,
            _ => return None,
        };
    }
    Some(x)
}
fn floor(s: &str, mut i: usize) -> usize {
    i = i.min(s.len());
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

/// Damage a frame. Deterministic in the specification and the text.
pub fn damage(text: &str, other: &str, spec: &Value) -> String {
    let mut r = Rng::new(spec["r"].as_u64().unwrap_or(0));
    let n = text.len().max(1);
    let s = |b: Vec<u8>| String::from_utf8_lossy(&b).into_owned();
    match spec["k"].as_str().unwrap_or("") {
        "trunc" => text[..floor(text, r.below(n))].to_string(),
        "flip" => {
            let mut b = text.as_bytes().to_vec();
            if !b.is_empty() {
                let i = r.below(b.len());
                b[i] ^= 1 << r.below(8);
            }
            s(b)
        }
        "del" => {
            let mut b = text.as_bytes().to_vec();
            let k = 1 + r.below(4);
            for _ in 0..k {
                if !b.is_empty() {
                    let i = r.below(b.len());
                    b.remove(i);
                }
            }
            s(b)
        }
        "ins" => {
            let mut b = text.as_bytes().to_vec();
            let i = r.below(b.len() + 1);
            b.insert(i, *r.pick(b"\"{}[],:0eE-+. \n\\xnt\0"));
            s(b)
        }
        "splice" => {
            let a = floor(text, r.below(n));
            let b = floor(other, r.below(other.len().max(1)));
            format!("{}{}", &text[..a], &other[b..])
        }
        "tail" => format!("{text}{}", r.pick(&["}", "{}", "null", ",", "\u{0}", "]", other])),
        "wrap" => match r.below(3) {
            0 => format!("[{text}]"),
            1 => format!("[{text},{other}]"),
            _ => serde_json::to_string(text).unwrap(),
        },
        "unicode" => {
            let i = floor(text, r.below(n));
            format!("{}{}{}", &text[..i], r.pick(&["\u{fffd}", "\u{feff}", "\\ud800", "\u{0}", "\u{2028}"]), &text[i..])
        }
        "env" => {
            let Ok(Value::Object(mut m)) = serde_json::from_str::<Value>(text) else { return text.to_string() };
            let odd = [json!(null), json!(1.5), json!(true), json!([]), json!({}), json!(1e300), json!(18446744073709551615u64), json!(-0.5), json!(["2.0"])];
            match r.below(9) {
                0 => { m.remove("jsonrpc"); }
                1 => { m.insert("jsonrpc".into(), r.pick(&[json!("1.0"), json!("2"), json!(2.0), json!(2), json!(""), json!(null), json!("2.0 "), json!("2.00"), json!(["2.0"])]).clone()); }
                2 => { m.remove("id"); }
                3 | 4 => { m.insert("id".into(), r.pick(&odd).clone()); }
                5 => { m.remove("method"); m.remove("result"); m.remove("error"); }
                6 => { let k = *r.pick(&["method", "result", "error"]); if m.contains_key(k) { m.insert(k.into(), r.pick(&[json!(null), json!(3), json!("x"), json!([]), json!(true)]).clone()); } }
                7 => { if let Some(x) = m.remove("method") { m.insert(r.pick(&["Method", "method ", "metod"]).to_string(), x); } else if let Some(x) = m.remove("result") { m.insert("Result".into(), x); } else if let Some(x) = m.remove("error") { m.insert("err".into(), x); } }
                _ => { if let Some(Value::Object(e)) = m.get_mut("error") { let k = r.pick(&["code", "message"]).to_string(); if r.p(0.5) { e.remove(&k); } else { e.insert(k, r.pick(&odd).clone()); } } else { m.remove("jsonrpc"); } }
            }
            Value::Object(m).to_string()
        }
        k @ ("dropkey" | "retype" | "swap") => {
            let Ok(mut v) = serde_json::from_str::<Value>(text) else { return text.to_string() };
            let mut ps = vec![];
            paths(&v, &mut vec![], &mut ps);
            if ps.is_empty() {
                return text.to_string();
            }
            let p = r.pick(&ps).clone();
            match k {
                "dropkey" => {
                    if let Some(x) = slot(&mut v, &p[..p.len() - 1]) {
                        match x {
                            Value::Object(m) => { m.remove(&p[p.len() - 1]); }
                            Value::Array(a) => { if let Ok(i) = p[p.len() - 1].parse::<usize>() { a.remove(i); } }
                            _ => {}
                        }
                    }
                }
                "retype" => {
                    let pool = [json!(null), json!(7), json!(1.5), json!("zz"), json!(true), json!([]), json!({}), json!(["a"]), json!({"a": 1}), json!(-1), json!("")];
                    let x = r.pick(&pool).clone();
                    if let Some(y) = slot(&mut v, &p) {
                        *y = x;
                    }
                }
                _ => {
                    let q = r.pick(&ps).clone();
                    let a = slot(&mut v, &p).map(|x| x.clone());
                    let b = slot(&mut v, &q).map(|x| x.clone());
                    if let (Some(a), Some(b)) = (a, b) {
                        if let Some(x) = slot(&mut v, &p) { *x = b; }
                        if let Some(x) = slot(&mut v, &q) { *x = a; }
                    }
                }
            }
            v.to_string()
        }
        _ => text.to_string(),
    }
}
impl<E> World<E> {
    /// Number the occurrences of a named decision, so that each has a name of its own.
    pub fn nth(&mut self, key: &str) -> String {
        let n = self.times.entry(key.to_string()).or_insert(0);
        *n += 1;
        format!("{key}#{n}")
    }
    /// In a replay: the fixed outcome of a named fault (Some(None) if it did not happen).
    pub fn fixed(&self, key: &str) -> Option<Option<Value>> {
        self.explicit.as_ref().map(|m| m.get(key).cloned())
    }
}
