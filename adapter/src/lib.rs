//! Per-version adapter: exposes the real rust-mcp-schema code of one protocol version to the simulator
//! as a C ABI call taking and returning JSON. It contains no model of the library: every answer is the
//! library's own.
#![allow(clippy::all)]
#![recursion_limit = "512"]
mod common;
mod pieces;
#[cfg(any(feature = "v2024_11_05", feature = "v2025_03_26", feature = "v2025_06_18"))]
#[path = "fam_a.rs"]
mod fam;
#[cfg(feature = "v2025_11_25")]
#[path = "fam_b.rs"]
mod fam;
#[cfg(any(feature = "v2026_07_28", feature = "vdraft"))]
#[path = "fam_c.rs"]
mod fam;

use serde_json::{json, Value};

/// # Safety
/// `ptr..ptr+len` must be readable and `out_len` writable.
#[no_mangle]
pub unsafe extern "C" fn vp_call(ptr: *const u8, len: usize, out_len: *mut usize) -> *mut u8 {
    let bytes = std::slice::from_raw_parts(ptr, len);
    let reply = match std::panic::catch_unwind(|| {
        let v: Value = serde_json::from_slice(bytes).expect("adapter call is not JSON");
        if v["op"] == "part" {
            return pieces::part(&v);
        }
        fam::op(&v)
    }) {
        Ok(v) => v,
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            json!({ "panic": m })
        }
    };
    let mut out = serde_json::to_vec(&reply).unwrap().into_boxed_slice();
    *out_len = out.len();
    let p = out.as_mut_ptr();
    std::mem::forget(out);
    p
}

/// # Safety
/// `ptr`/`len` must come from `vp_call`.
#[no_mangle]
pub unsafe extern "C" fn vp_free(ptr: *mut u8, len: usize) {
    drop(Box::from_raw(std::slice::from_raw_parts_mut(ptr, len)));
}

#[no_mangle]
pub extern "C" fn vp_init() {
    std::panic::set_hook(Box::new(|_| {}));
}
