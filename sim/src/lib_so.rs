//! Loads the per-version adapters (the real library code) into this process.
use serde_json::Value;
use std::ffi::{c_char, c_int, c_void, CString};

extern "C" {
    fn dlopen(path: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, name: *const c_char) -> *mut c_void;
    fn dlerror() -> *const c_char;
}
type CallFn = unsafe extern "C" fn(*const u8, usize, *mut usize) -> *mut u8;
type FreeFn = unsafe extern "C" fn(*mut u8, usize);

pub struct Lib {
    call: CallFn,
    free: FreeFn,
}
unsafe impl Sync for Lib {}
unsafe impl Send for Lib {}

impl Lib {
    pub fn open(path: &str) -> Result<Lib, String> {
        unsafe {
            let c = CString::new(path).unwrap();
            let h = dlopen(c.as_ptr(), 2);
            if h.is_null() {
                let e = dlerror();
                return Err(format!("dlopen {path}: {}", std::ffi::CStr::from_ptr(e).to_string_lossy()));
            }
            let sym = |n: &str| {
                let c = CString::new(n).unwrap();
                let p = dlsym(h, c.as_ptr());
                assert!(!p.is_null(), "{path} lacks {n}");
                p
            };
            let init: extern "C" fn() = std::mem::transmute(sym("vp_init"));
            init();
            Ok(Lib { call: std::mem::transmute(sym("vp_call")), free: std::mem::transmute(sym("vp_free")) })
        }
    }
    pub fn call(&self, v: &Value) -> Value {
        let text = serde_json::to_vec(v).unwrap();
        let mut n = 0usize;
        unsafe {
            let p = (self.call)(text.as_ptr(), text.len(), &mut n);
            let r = serde_json::from_slice(std::slice::from_raw_parts(p, n)).unwrap();
            (self.free)(p, n);
            r
        }
    }
}
