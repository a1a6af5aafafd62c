//! Sessions between peers of different versions: every frame is valid in each version used along the way, relays and
//! endpoints are upgraded and downgraded in the middle, and each node judges what it hears by its own version.
use crate::cat::*;
use crate::gen::*;
use crate::jsonx::*;
use crate::rng::*;
use crate::schema::Mode;
use crate::world::*;
use crate::Ctx;
use serde_json::{json, Value};

/// Is the frame, of that type in the version it was made in, one the version allows too (if need be as a custom one)?
pub fn shared(v: &Ver, side: &str, kind: &str, ty: &str, frame: &Value) -> bool {
    match kind {
        "request" | "notification" => match v.type_of(side, kind, st(frame, "method")) {
            None => v.fam != Fam::A && !v.all_methods().contains(&st(frame, "method")),
            Some(t) => {
                if t != ty && ty != "custom" {
                    return false;
                }
                let (ps, must) = v.params_schema(t);
                match frame.get("params") {
                    None => !must,
                    Some(p) => !ps.is_null() && v.sch.ok(ps, p, Mode::Closed),
                }
            }
        },
        "response" => {
            if !v.ress(side).contains(&ty) {
                return false;
            }
            let mut r = frame["result"].clone();
            if v.fam == Fam::C && side == "s" && r.get("resultType").is_none() {
                r["resultType"] = json!("complete");
            }
            ty == "Result" && r.is_object() || v.sch.ok(v.sch.get(ty), &r, Mode::Closed)
        }
        _ => true,
    }
}

/// What a node of that version takes the frame for.
pub fn ty_at<'a>(v: &Ver, side: &str, kind: &str, ty: &'a str, frame: &Value) -> &'a str {
    if kind == "request" || kind == "notification" { v.type_of(side, kind, st(frame, "method")).unwrap_or("custom") } else { ty }
}

pub fn plan(ctx: &Ctx, seed: u64, prop: &str) -> Value {
    let mut rr = Rng::new(hash_str(seed, prop));
    let r = &mut rr;
    if r.p(0.4) {
        return crate::nego::plan(ctx, r, seed, prop);
    }
    // two or three versions, neighbours more often
    let mut vs = vec![r.below(6)];
    while vs.len() < 2 || vs.len() < 3 && r.p(0.35) {
        let x = if r.p(0.5) { (vs[0] + 1).min(5) } else { r.below(6) };
        if !vs.contains(&x) {
            vs.push(x);
        } else if r.p(0.3) {
            vs.push(r.below(6));
        }
        vs.dedup();
    }
    let vv: Vec<&Ver> = vs.iter().map(|i| &ctx.vers[*i]).collect();
    let old = vv.iter().any(|v| v.fam != Fam::C);
    let has_c = vv.iter().any(|v| v.fam == Fam::C);
    let relays = *r.pick(&[0usize, 1, 1, 2, 2, 3]);
    let mut nodes = vec!["client".to_string()];
    for _ in 0..relays {
        nodes.push(if r.p(0.2) { "g".into() } else { "r".into() });
    }
    nodes.push("server".into());
    let n = nodes.len();
    let mut vers: Vec<usize> = (0..n).map(|_| *r.pick(&vs)).collect();
    vers[0] = vs[0];
    vers[n - 1] = vs[1];
    if r.p(0.5) {
        vers.reverse();
    }
    let all = |side: &str, kind: &str, ty: &str, f: &Value| vv.iter().all(|v| shared(v, side, kind, ty, f));
    let span = *r.pick(&[0u64, 50, 500, 3000]);
    let mut used: [Vec<Value>; 2] = [vec![], vec![]];
    let mut ops = vec![];
    let want = r.range(4, 16);
    for u in 0..want {
        let mut tries = 0;
        let found = loop {
            tries += 1;
            if tries > 25 {
                break None;
            }
            let from = if r.p(0.55) { "c" } else { "s" };
            let e = if from == "c" { 0 } else { 1 };
            let v = *r.pick(&vv);
            let mut g = gen_for(v, r);
            if tries > 8 {
                g.opt = *r.pick(&[0.0, 0.15]);
                g.vendor = 0.0;
            }
            let (kind, ty, f) = if from == "c" && !vv.iter().any(|v| v.fam == Fam::A) && r.p(0.12) {
                // an operation only these two peers know
                let mut u2 = used[e].clone();
                let id = fresh_id(r, &mut u2);
                ("request", "custom", frame_request(&id, &vendor_method(r, v, "request"), custom_params(&g, r)))
            } else if r.p(0.3) {
                let ty = *r.pick(v.nots(from));
                ("notification", ty, v.notification(&g, r, ty))
            } else {
                let mut pool = v.reqs(from).to_vec();
                if v.fam == Fam::C && from == "s" {
                    pool.retain(|t| *t == "ElicitRequest");
                }
                let ty = *r.pick(&pool);
                let mut u2 = used[e].clone();
                let id = fresh_id(r, &mut u2);
                ("request", ty, v.request(&g, r, ty, &id))
            };
            if !all(from, kind, ty, &f) {
                continue;
            }
            let everywhere = ty == "custom" && vv.iter().all(|v| v.type_of(from, kind, st(&f, "method")).is_none()) || vv.iter().all(|v| v.type_of(from, kind, st(&f, "method")) == Some(ty));
            if !everywhere && r.p(0.6) {
                continue;
            }
            break Some((from, e, kind, ty, f, everywhere));
        };
        let Some((from, e, kind, ty, f, everywhere)) = found else { continue };
        let mut o = json!({"kind": kind, "ty": ty, "frame": f});
        if kind == "request" {
            used[e].push(f["id"].clone());
            let side = if from == "c" { "s" } else { "c" };
            let mut reply = None;
            if ty == "custom" {
                // an older peer's reply has no marker, and what the newer one calls a demand is to it any other member
                let mut body = custom_result(vv[0], &gen_for(vv[0], r), r);
                let m = body.as_object_mut().unwrap();
                if old || r.p(0.5) {
                    m.remove("resultType");
                    if r.p(0.3) {
                        m.insert("requestState".into(), json!("s"));
                    }
                    if r.p(0.2) {
                        m.insert("inputRequests".into(), json!({}));
                    }
                }
                reply = Some(json!({"kind": "response", "ty": "custom", "frame": frame_response(&f["id"], body)}));
            } else if everywhere && r.p(0.9) {
                for k in 0..15 {
                    let v = *r.pick(&vv);
                    let mut g = gen_for(v, r);
                    if k > 6 {
                        g.opt = *r.pick(&[0.0, 0.15]);
                        g.vendor = 0.0;
                    }
                    let mut rt = v.result_of(ty);
                    if !old && side == "s" && r.p(0.2) && ["CallToolRequest", "GetPromptRequest", "ReadResourceRequest"].contains(&ty) {
                        rt = "InputRequiredResult";
                    }
                    let mut body = if rt == "Result" { json!({}) } else { v.result(&g, r, rt) };
                    if v.fam == Fam::C && rt == "Result" {
                        body["resultType"] = json!("complete");
                    }
                    let marked = rt == "InputRequiredResult" || !old && r.p(0.8);
                    if !marked && side == "s" {
                        body.as_object_mut().unwrap().remove("resultType");
                    }
                    if side == "c" && has_c && old {
                        body.as_object_mut().unwrap().remove("resultType");
                    }
                    let f = frame_response(&f["id"], body);
                    if vv.iter().all(|v| shared(v, side, "response", rt, &f)) {
                        reply = Some(json!({"kind": "response", "ty": rt, "frame": f}));
                        break;
                    }
                }
            }
            let mut reply = reply.unwrap_or_else(|| {
                let g = gen_for(vv[0], r);
                json!({"kind": "error", "ty": "error", "frame": frame_error(&f["id"], error_obj(&g, r))})
            });
            reply["style"] = json!(r.below(4));
            if r.p(0.25) && (reply["kind"] == "error" || !has_c || side == "c" || reply["frame"]["result"].get("resultType").is_some()) {
                reply["build"] = json!(r.below(9));
            }
            o["reply"] = reply;
            o["work"] = json!(*r.pick(&[0u64, 1, 10, 100, 700]));
        }
        o["u"] = json!(u);
        o["t"] = json!(if span == 0 { 0 } else { r.below(span as usize) as u64 });
        o["from"] = json!(from);
        o["style"] = json!(r.below(4));
        o["build"] = if everywhere && r.p(0.3) { json!({"via": "build", "er": r.below(9)}) } else { Value::Null };
        ops.push(o);
    }
    let mut events = vec![];
    for _ in 0..r.below(4) {
        events.push(json!({"e": "upg", "n": r.below(n), "t": r.below(3500), "v": *r.pick(&vs)}));
    }
    if r.p(0.4) {
        // a node is taken down and comes back with another version
        let k = r.below(n);
        let t = r.below(3000) as u64;
        events.push(json!({"e": "crash", "n": k, "t": t, "down": 20 + r.below(900)}));
        events.push(json!({"e": "upg", "n": k, "t": t + 10, "v": *r.pick(&vs)}));
    }
    if r.p(0.2) {
        events.push(json!({"e": "part", "n": r.below(n - 1), "t": r.below(3000), "dur": 1 + r.below(900)}));
    }
    json!({"scn": "session", "mixed": vs, "prop": prop, "seed": seed, "nodes": nodes, "vers": vers, "net_seed": r.next() >> 8, "prof": Profile::draw(r, 0.0),
           "rto": *r.pick(&[300u64, 700, 1500]), "patience": 30000, "heal": 4000, "skew": [1.0, *r.pick(&[1.0, 0.5, 3.0])], "ops": ops, "events": events, "faults": null})
}
