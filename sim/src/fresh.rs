//! Execution in a process of its own, with nothing before it or with exactly the listed runs before it: a library that
//! carries something over from one message to the next must not make a replay depend on what else the search had done.
use crate::{jsonx::*, plan_for, Ctx};
use serde_json::{json, Value};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

static N: AtomicU64 = AtomicU64::new(0);

/// A run by reference.
pub fn by_seed(prop: &str, seed: u64) -> Value {
    json!({"run_of": prop, "seed": seed})
}
pub fn plan_of(ctx: &Ctx, x: &Value) -> Value {
    match x.get("run_of").and_then(Value::as_str) {
        Some(p) => plan_for(ctx, p, x["seed"].as_u64().unwrap_or(0)),
        None => x.clone(),
    }
}

/// In the parent: what `plan` does after `before`.
pub fn outcome(ctx: &Ctx, before: &[Value], plan: &Value, sig: &str, trace: bool, limit: Duration) -> Option<Value> {
    let f = format!("{}/target/seq.{}.{}", ctx.root, std::process::id(), N.fetch_add(1, Ordering::Relaxed));
    let out = format!("{f}.out");
    std::fs::write(&f, json!({"before": before, "plan": plan, "sig": sig, "trace": trace}).to_string()).ok()?;
    let t = Instant::now();
    let mut c = Command::new(std::env::current_exe().ok()?).args(["seq", &f, &out]).env_remove("VP_WORKER").stdout(Stdio::null()).stderr(Stdio::null()).spawn().ok()?;
    loop {
        match c.try_wait() {
            Ok(None) if t.elapsed() < limit => std::thread::sleep(Duration::from_millis(1)),
            Ok(None) => {
                let _ = c.kill();
                let _ = c.wait();
                break;
            }
            _ => break,
        }
    }
    let r = std::fs::read_to_string(&out).ok().and_then(|t| serde_json::from_str(&t).ok());
    let _ = std::fs::remove_file(&f);
    let _ = std::fs::remove_file(&out);
    r
}
pub fn hits(ctx: &Ctx, before: &[Value], plan: &Value, sig: &str, limit: Duration) -> bool {
    outcome(ctx, before, plan, sig, false, limit).is_some_and(|o| o["hit"] == json!(true))
}
/// In the child.
pub fn child(ctx: &Ctx, file: &str, out: &str) {
    let q: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("job")).expect("job JSON");
    let r = here(ctx, &q);
    let _ = std::fs::write(out, r.to_string());
}
pub fn here(ctx: &Ctx, q: &Value) -> Value {
    for b in q["before"].as_array().into_iter().flatten() {
        crate::execute(ctx, &plan_of(ctx, b), false);
    }
    let o = crate::execute(ctx, &plan_of(ctx, &q["plan"]), q["trace"] == json!(true));
    let x = o.viols.iter().find(|x| x.sig == st(q, "sig"));
    json!({"hit": x.is_some(), "text": x.map(|x| x.text.clone()), "hash": format!("{:016x}", o.hash), "trace": o.trace, "fired": o.fired})
}
/// The shortest tail of the runs before this one that makes it fail in a fresh process, thinned out.
pub fn history(ctx: &Ctx, prop: &str, sig: &str, plan: &Value, runs: &[Vec<u64>], seed_of: impl Fn(u64) -> u64) -> Option<Vec<Value>> {
    let t0 = Instant::now();
    let limit = Duration::from_secs(60);
    for list in runs {
        let mut k = 1;
        while t0.elapsed().as_secs() < 150 {
            let tail: Vec<Value> = list[list.len().saturating_sub(k)..].iter().map(|i| by_seed(prop, seed_of(*i))).collect();
            if hits(ctx, &tail, plan, sig, limit) {
                let mut cur = tail;
                let mut chunk = cur.len().div_ceil(2);
                let t1 = Instant::now();
                while chunk > 0 && t1.elapsed().as_secs() < 60 {
                    let mut i = 0;
                    while i < cur.len() && t1.elapsed().as_secs() < 60 {
                        let mut c = cur.clone();
                        c.drain(i..(i + chunk).min(cur.len()));
                        if hits(ctx, &c, plan, sig, limit) {
                            cur = c;
                        } else {
                            i += chunk;
                        }
                    }
                    chunk /= 2;
                }
                return Some(if cur.len() <= 8 { cur.iter().map(|x| plan_of(ctx, x)).collect() } else { cur });
            }
            if k >= list.len() {
                break;
            }
            k *= 4;
        }
    }
    None
}
