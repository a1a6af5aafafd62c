//! What every scenario shares: packets over faulty links, frames heard through the library, named faults, items to send.
use crate::cat::*;
use crate::check::*;
use crate::jsonx::*;
use crate::rng::*;
use crate::schema::Gen;
use crate::world::*;
use serde_json::{json, Value};

/// Put a frame on a link; each copy that arrives becomes an event.
pub fn post<E>(w: &mut World<E>, key: &str, text: &str, mk: impl Fn(String, bool) -> E) {
    for c in w.link(key) {
        let (t, dam) = match &c.corrupt {
            Some(spec) => {
                let t = damage(text, text, spec);
                let d = t != text;
                (t, d)
            }
            None => (text.to_string(), false),
        };
        w.after(c.delay, mk(t, dam));
    }
}

impl<E> World<E> {
    /// A fault that is not a link fault: drawn by name, recorded by name, replayed by name.
    pub fn fate(&mut self, key: &str, draw: impl FnOnce(&mut Rng) -> Option<Value>) -> Option<Value> {
        let f = match self.fixed(key) {
            Some(f) => f,
            None => draw(&mut self.choice(key)),
        };
        if let Some(x) = &f {
            self.fired.insert(key.to_string(), x.clone());
        }
        f
    }
    pub fn faulty(&self) -> bool {
        self.now < self.heal
    }
}

/// Receive a frame through the library and judge it. Gives what the library told and its re-encoding.
pub fn hear<E>(w: &mut World<E>, ver: &Ver, e: &Exp, text: &str, key: &str) -> Option<(Value, String)> {
    let mut r = w.choice(&format!("rt:{key}"));
    let (dr, er) = (r.below(6) as u64, r.below(9) as u64);
    let rep = ver.lib.call(&json!({"op": "recv", "side": e.side, "text": text, "dr": dr, "er": er, "deep": true}));
    w.bump("frames_handled");
    w.note(&format!("hear {key}"), text);
    let mut vs = vec![];
    let enc = check_recv(ver, e, text, dr, er, &rep, &mut vs);
    w.viols.extend(vs);
    Some((rep["ok"].clone(), canon(&enc?)))
}

/// A message of one side: (kind, type, frame). Replies get an id of their own. No custom messages in family A, whose
/// encoding of them is a known finding of other properties.
pub fn item(v: &Ver, g: &Gen, r: &mut Rng, side: &str, used: &mut Vec<Value>) -> (&'static str, &'static str, Value) {
    let custom = v.fam != Fam::A && r.p(0.12);
    match r.below(10) {
        0..=3 => {
            let id = fresh_id(r, used);
            if custom {
                return ("request", "custom", frame_request(&id, &vendor_method(r, v, "request"), crate::gen::custom_params(g, r)));
            }
            let mut pool = v.reqs(side).to_vec();
            if v.fam == Fam::C && side == "s" {
                pool.push("ElicitRequest");
            }
            let ty = *r.pick(&pool);
            ("request", ty, v.request(g, r, ty, &id))
        }
        4 | 5 => {
            if custom {
                return ("notification", "custom", frame_notification(&vendor_method(r, v, "notification"), crate::gen::custom_params(g, r)));
            }
            let ty = *r.pick(v.nots(side));
            ("notification", ty, v.notification(g, r, ty))
        }
        6..=8 => {
            let id = fresh_id(r, used);
            if custom {
                return ("response", "custom", frame_response(&id, crate::gen::custom_result(v, g, r)));
            }
            let ty = *r.pick(v.ress(side));
            ("response", ty, frame_response(&id, v.result(g, r, ty)))
        }
        _ => {
            let id = fresh_id(r, used);
            ("error", "error", frame_error(&id, crate::gen::error_obj(g, r)))
        }
    }
}

pub fn short(s: &str, n: usize) -> String {
    let mut t: String = s.chars().take(n).collect();
    if t.len() < s.len() {
        t.push('…');
    }
    t
}
