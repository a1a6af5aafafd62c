//! The search runs in a process of its own: a library that overflows the stack, aborts, exhausts memory or never
//! returns ends that process and not the check, and the run that did it becomes the violation.
use crate::{jsonx::*, minimize, plan_for, report, rng, Ctx};
use serde_json::{json, Value};
use std::io::Read;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub const THREADS: usize = 8;
/// A run takes milliseconds; one that takes this long never ends.
const HANG_S: u64 = 100;

/// Where the worker notes which run each of its threads is in.
pub struct Slots(Option<std::fs::File>);
impl Slots {
    pub fn open() -> Slots {
        Slots(std::env::var("VP_WORKER").ok().and_then(|p| std::fs::OpenOptions::new().write(true).open(p).ok()))
    }
    pub fn set(&self, thread: usize, run: u64) {
        if let Some(f) = &self.0 {
            let _ = f.write_at(&run.to_le_bytes(), thread as u64 * 8);
        }
    }
}

fn inflight(path: &str) -> Vec<u64> {
    let mut b = vec![];
    if let Ok(mut f) = std::fs::File::open(path) {
        let _ = f.read_to_end(&mut b);
    }
    b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
}

fn me() -> Command {
    Command::new(std::env::current_exe().expect("own path"))
}

/// How a child ended, if not in an orderly way.
fn wait(mut c: Child, limit: Duration) -> Option<&'static str> {
    let t = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(s)) => return s.signal().map(|_| "ended the process"),
            Ok(None) if t.elapsed() > limit => {
                let _ = c.kill();
                let _ = c.wait();
                return Some("did not return");
            }
            Ok(None) => std::thread::sleep(Duration::from_millis(2)),
            Err(_) => return None,
        }
    }
}

/// Execute one plan in a process of its own; what it did until it ended is written to `out`.
pub fn dies(ctx: &Ctx, plan: &Value, limit_s: u64, out: Option<&str>) -> Option<&'static str> {
    let f = format!("{}/target/try.{}.json", ctx.root, std::process::id());
    std::fs::write(&f, plan.to_string()).ok()?;
    let so = match out.and_then(|o| std::fs::File::create(o).ok()) {
        Some(o) => Stdio::from(o),
        None => Stdio::null(),
    };
    let c = me().args(["try", &f]).stdout(so).stderr(Stdio::null()).spawn().ok()?;
    let r = wait(c, Duration::from_secs(limit_s));
    let _ = std::fs::remove_file(&f);
    r
}

pub fn check(ctx: &Ctx, prop: &str, tier: &str, seed: u64) -> i32 {
    let t0 = Instant::now();
    let path = format!("{}/target/inflight.{}", ctx.root, std::process::id());
    if std::fs::write(&path, vec![0xff; THREADS * 8]).is_err() {
        return crate::search(ctx, prop, tier, seed);
    }
    let mut c = match me().args(["check", prop, tier, &seed.to_string()]).env("VP_WORKER", &path).spawn() {
        Ok(c) => c,
        Err(e) => {
            eprintln!("cannot start the search: {e}");
            return 3;
        }
    };
    let mut seen: Vec<(u64, Instant)> = vec![(u64::MAX, Instant::now()); THREADS];
    let why = loop {
        match c.try_wait() {
            Ok(Some(s)) => match s.code() {
                Some(code) => {
                    let _ = std::fs::remove_file(&path);
                    return code;
                }
                None => break "ended the process",
            },
            Ok(None) => {}
            Err(_) => return 3,
        }
        let now = inflight(&path);
        let mut hang = false;
        for (s, x) in seen.iter_mut().zip(&now) {
            if s.0 != *x {
                *s = (*x, Instant::now());
            }
            hang |= *x != u64::MAX && s.1.elapsed().as_secs() > HANG_S;
        }
        if hang {
            let _ = c.kill();
            let _ = c.wait();
            break "did not return";
        }
        std::thread::sleep(Duration::from_millis(50));
    };
    let mut runs: Vec<u64> = inflight(&path).into_iter().filter(|x| *x != u64::MAX).collect();
    runs.sort();
    let _ = std::fs::remove_file(&path);
    eprintln!("the search {why}; runs in progress: {runs:?}");
    let done = runs.first().copied().unwrap_or(0);
    for i in runs {
        let rs = rng::hash_str(seed, &format!("{prop}:{i}"));
        let plan = plan_for(ctx, prop, rs);
        let limit = if why == "did not return" { 60 } else { 100 };
        let Some(how) = dies(ctx, &plan, limit, None) else { continue };
        let ver = crate::cat::NAMES[plan["vers"][0].as_u64().or(plan["ver"].as_u64()).unwrap_or(0) as usize];
        let text = format!("[{ver}] a call into the library {how} (stack overflow, abort, exhausted memory or endless loop)");
        println!("run {i} (seed {rs}) breaks {prop}: {text}");
        let sig = format!("died|{how}");
        let small = minimize::minimize(ctx, &plan, &sig);
        let file = write(ctx, prop, rs, &small, &sig, &text);
        println!("VIOLATION property={prop} replay={file}");
        let tot = report::Totals { runs: done.max(1), ..Default::default() };
        report::evidence(ctx, prop, tier, seed, &tot, done, t0.elapsed().as_secs_f64(), 1);
        return 1;
    }
    eprintln!("no single run ends the process by itself");
    3
}

fn write(ctx: &Ctx, prop: &str, seed: u64, plan: &Value, sig: &str, text: &str) -> String {
    let dir = format!("{}/replays", ctx.root);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{prop}-{seed:016x}.json");
    let log = format!("{path}.log");
    dies(ctx, plan, 30, Some(&log));
    let trace: Vec<String> = std::fs::read_to_string(&log).unwrap_or_default().lines().map(str::to_string).collect();
    let _ = std::fs::remove_file(&log);
    let v = json!({"property": prop, "seed": seed, "violation": {"signature": sig, "text": text}, "plan": plan, "trace": trace});
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).expect("writing the replay file");
    println!("minimised: {}", plan["minimised"]);
    println!("violation: {text}");
    path
}

/// Replay of a run that ends its process.
pub fn replay(ctx: &Ctx, v: &Value, file: &str) -> i32 {
    let log = format!("{}/target/replay.{}.log", ctx.root, std::process::id());
    let r = dies(ctx, &v["plan"], 60, Some(&log));
    print!("{}", std::fs::read_to_string(&log).unwrap_or_default());
    let _ = std::fs::remove_file(&log);
    match r {
        Some(how) => {
            println!("reproduced: a call into the library {how}");
            println!("VIOLATION property={} replay={file}", st(v, "property"));
            1
        }
        None => {
            println!("not reproduced on the current tree");
            0
        }
    }
}
