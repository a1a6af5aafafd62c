//! Reduce a failing plan to a small schedule and fault trace with the same violation.
use crate::cat::Fam;
use crate::jsonx::*;
use crate::schema::Mode;
use crate::{execute, Ctx};
use serde_json::{json, Map, Value};
use std::time::{Duration, Instant};

struct M<'a> {
    ctx: &'a Ctx,
    sig: &'a str,
    t0: Instant,
    execs: usize,
    /// every attempt in a process of its own, after these runs
    fresh: Option<&'a [Value]>,
}
impl M<'_> {
    fn fails(&mut self, p: &Value) -> bool {
        self.execs += 1;
        if self.sig.starts_with("died|") {
            let limit = if self.sig.ends_with("return") { 5 } else { 20 };
            return crate::guard::dies(self.ctx, p, limit, None).is_some();
        }
        if let Some(b) = self.fresh {
            return crate::fresh::hits(self.ctx, b, p, self.sig, Duration::from_secs(20));
        }
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| execute(self.ctx, p, false)))
            .map(|o| o.viols.iter().any(|x| x.sig == self.sig))
            .unwrap_or(false)
    }
    fn spent(&self) -> bool {
        self.t0.elapsed().as_secs() > 60 || self.execs > 6000
    }
    /// Remove chunks of a list while the plan still fails.
    fn list(&mut self, plan: &mut Value, key: &str) {
        let Some(items) = plan[key].as_array().cloned() else { return };
        let mut cur = items;
        let mut chunk = cur.len().div_ceil(2).max(1);
        while !cur.is_empty() && !self.spent() {
            let mut i = 0;
            let mut hit = false;
            while i < cur.len() {
                let mut c = cur.clone();
                c.drain(i..(i + chunk).min(cur.len()));
                let mut p = plan.clone();
                p[key] = json!(c);
                if self.fails(&p) {
                    cur = c;
                    *plan = p;
                    hit = true;
                } else {
                    i += chunk;
                }
                if self.spent() {
                    return;
                }
            }
            if chunk == 1 && !hit {
                break;
            }
            chunk = if hit { chunk.min(cur.len().max(1)) } else { (chunk / 2).max(1) };
        }
    }
    fn faults(&mut self, plan: &mut Value) {
        let Some(m) = plan["faults"].as_object().cloned() else { return };
        let mut keys: Vec<String> = m.keys().cloned().collect();
        let mut chunk = keys.len().div_ceil(2).max(1);
        while !keys.is_empty() && !self.spent() {
            let mut i = 0;
            let mut hit = false;
            while i < keys.len() && !self.spent() {
                let mut k = keys.clone();
                k.drain(i..(i + chunk).min(keys.len()));
                let mut p = plan.clone();
                let f: Map<String, Value> = k.iter().map(|x| (x.clone(), m[x].clone())).collect();
                p["faults"] = Value::Object(f);
                if self.fails(&p) {
                    keys = k;
                    *plan = p;
                    hit = true;
                } else {
                    i += chunk;
                }
            }
            if chunk == 1 && !hit {
                break;
            }
            chunk = if hit { chunk.min(keys.len().max(1)) } else { (chunk / 2).max(1) };
        }
    }
    /// Remove elements of a list or map inside the plan, one by one.
    fn nested(&mut self, plan: &mut Value, ptr: &str) {
        let keys: Vec<String> = match plan.pointer(ptr) {
            Some(Value::Array(a)) => (0..a.len()).rev().map(|i| i.to_string()).collect(),
            Some(Value::Object(m)) => m.keys().cloned().collect(),
            _ => return,
        };
        for k in keys {
            if self.spent() {
                return;
            }
            let mut p = plan.clone();
            match p.pointer_mut(ptr) {
                Some(Value::Array(a)) => {
                    a.remove(k.parse::<usize>().unwrap());
                }
                Some(Value::Object(m)) => {
                    m.remove(&k);
                }
                _ => return,
            }
            if self.fails(&p) {
                *plan = p;
            }
        }
    }
    fn set(&mut self, plan: &mut Value, ptr: &str, x: Value) {
        let Some(y) = plan.pointer(ptr) else { return };
        if *y == x {
            return;
        }
        let mut p = plan.clone();
        *p.pointer_mut(ptr).unwrap() = x;
        if self.fails(&p) {
            *plan = p;
        }
    }
}

/// Is a shrunk frame still one the specification allows?
fn valid(ctx: &Ctx, plan: &Value, kind: &str, ty: &str, frame: &Value) -> bool {
    if let Some(vs) = plan["mixed"].as_array() {
        // the sender's side is the one that has the type
        return vs.iter().all(|i| {
            let v = &ctx.vers[i.as_u64().unwrap() as usize];
            ["c", "s"].iter().any(|s| crate::mixed::shared(v, s, kind, ty, frame))
        }) && (kind != "error" || frame["error"]["code"].is_i64() && frame["error"]["message"].is_string());
    }
    let vi = plan["vers"][0].as_u64().or(plan["ver"].as_u64()).unwrap_or(0) as usize;
    let v = &ctx.vers[vi];
    match kind {
        "part" => ty.starts_with('@') || v.sch.ok(v.sch.get(ty), frame, Mode::Closed),
        "request" | "notification" => {
            if ty == "custom" {
                return frame.get("params").is_none_or(Value::is_object);
            }
            let (ps, must) = v.params_schema(ty);
            match frame.get("params") {
                None => !must,
                Some(p) => !ps.is_null() && v.sch.ok(ps, p, Mode::Closed),
            }
        }
        "response" => {
            let r = &frame["result"];
            r.is_object() && (v.fam != Fam::C || r.get("resultType").is_some()) && (ty == "custom" || ty == "Result" || v.sch.ok(v.sch.get(ty), r, Mode::Closed))
        }
        _ => frame["error"]["code"].is_i64() && frame["error"]["message"].is_string(),
    }
}

fn leaves(v: &Value, here: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                here.push(k.clone());
                out.push(here.clone());
                leaves(x, here, out);
                here.pop();
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                here.push(i.to_string());
                out.push(here.clone());
                leaves(x, here, out);
                here.pop();
            }
        }
        _ => {}
    }
}
fn without(v: &Value, path: &[String]) -> Value {
    let mut v = v.clone();
    let mut x = &mut v;
    for k in &path[..path.len() - 1] {
        x = match x {
            Value::Object(m) => m.get_mut(k).unwrap(),
            Value::Array(a) => &mut a[k.parse::<usize>().unwrap()],
            _ => return Value::Null,
        };
    }
    match x {
        Value::Object(m) => {
            m.remove(&path[path.len() - 1]);
        }
        Value::Array(a) => {
            a.remove(path[path.len() - 1].parse::<usize>().unwrap());
        }
        _ => {}
    }
    v
}

pub fn minimize(ctx: &Ctx, plan: &Value, sig: &str) -> Value {
    minimize_after(ctx, plan, sig, None)
}
pub fn minimize_after(ctx: &Ctx, plan: &Value, sig: &str, fresh: Option<&[Value]>) -> Value {
    let mut m = M { ctx, sig, t0: Instant::now(), execs: 0, fresh };
    let mut p = plan.clone();
    // fix every fault and delay that happened, by name
    if !sig.starts_with("died|") {
        let fired = match fresh {
            Some(b) => crate::fresh::outcome(ctx, b, &p, sig, false, Duration::from_secs(60)).map(|o| o["fired"].clone()).unwrap_or(Value::Null),
            None => Value::Object(execute(ctx, &p, false).fired),
        };
        let mut q = p.clone();
        q["faults"] = fired;
        if m.fails(&q) {
            p = q;
        }
    }
    let mut q = p.clone();
    q["faults"] = json!({});
    if m.fails(&q) {
        p = q;
    }
    for _ in 0..2 {
        m.list(&mut p, "events");
        m.list(&mut p, "ops");
        m.list(&mut p, "steps");
        m.faults(&mut p);
    }
    // fewer relays
    if let Some(n) = p["nodes"].as_array().map(Vec::len) {
        for i in (1..n.saturating_sub(1)).rev() {
            let mut q = p.clone();
            q["nodes"].as_array_mut().unwrap().remove(i);
            q["vers"].as_array_mut().unwrap().remove(i);
            if m.fails(&q) {
                p = q;
            }
        }
    }
    // fewer rounds and steps within an operation
    for i in 0..p["ops"].as_array().map(Vec::len).unwrap_or(0) {
        for ptr in [format!("/ops/{i}/rounds"), format!("/ops/{i}/steps")] {
            m.nested(&mut p, &ptr);
        }
        for k in 0..p.pointer(&format!("/ops/{i}/rounds")).and_then(Value::as_array).map(Vec::len).unwrap_or(0) {
            m.nested(&mut p, &format!("/ops/{i}/rounds/{k}/answers"));
            m.nested(&mut p, &format!("/ops/{i}/rounds/{k}/inputs"));
            m.set(&mut p, &format!("/ops/{i}/rounds/{k}/style"), json!(0));
            m.set(&mut p, &format!("/ops/{i}/rounds/{k}/route"), json!(0));
            m.set(&mut p, &format!("/ops/{i}/rounds/{k}/prev"), json!(false));
        }
        m.set(&mut p, &format!("/ops/{i}/think"), json!(0));
    }
    // smaller messages, simpler routes
    let ops = p["ops"].as_array().map(Vec::len).unwrap_or(0);
    for i in 0..ops {
        for (fp, kp, tp) in [
            (format!("/ops/{i}/frame"), format!("/ops/{i}/kind"), format!("/ops/{i}/ty")),
            (format!("/ops/{i}/reply/frame"), format!("/ops/{i}/reply/kind"), format!("/ops/{i}/reply/ty")),
            (format!("/ops/{i}/final/frame"), format!("/ops/{i}/final/kind"), format!("/ops/{i}/final/ty")),
        ] {
            loop {
                let Some(f) = p.pointer(&fp).cloned() else { break };
                let kind = p.pointer(&kp).and_then(Value::as_str).unwrap_or("").to_string();
                let ty = p.pointer(&tp).and_then(Value::as_str).unwrap_or("").to_string();
                let mut ps = vec![];
                leaves(&f, &mut vec![], &mut ps);
                if kind != "part" {
                    ps.retain(|x| !(x.len() == 1 && x[0] != "params"));
                }
                ps.sort_by_key(Vec::len);
                let mut hit = false;
                for x in ps {
                    if m.spent() {
                        break;
                    }
                    let c = without(&f, &x);
                    if !valid(ctx, &p, &kind, &ty, &c) {
                        continue;
                    }
                    let mut q = p.clone();
                    *q.pointer_mut(&fp).unwrap() = c;
                    if m.fails(&q) {
                        p = q;
                        hit = true;
                        break;
                    }
                }
                if !hit || m.spent() {
                    break;
                }
            }
        }
        m.set(&mut p, &format!("/ops/{i}/build"), Value::Null);
        m.set(&mut p, &format!("/ops/{i}/style"), json!(0));
        m.set(&mut p, &format!("/ops/{i}/reply/style"), json!(0));
        m.set(&mut p, &format!("/ops/{i}/reply/build"), Value::Null);
        m.set(&mut p, &format!("/ops/{i}/t"), json!(0));
        m.set(&mut p, &format!("/ops/{i}/work"), json!(0));
    }
    m.set(&mut p, "/skew", json!([1.0, 1.0]));
    p["minimised"] = json!({"executions": m.execs, "ops": p["ops"].as_array().map(Vec::len), "faults": p["faults"].as_object().map(Map::len)});
    let _ = st(&p, "prop");
    p
}
