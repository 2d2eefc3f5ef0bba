//! Runs histories on wasm32-unknown-unknown (32-bit, little-endian); `serve.mjs` is its host.
#[path = "../../../mc/src/builds.rs"]
#[allow(dead_code)]
mod builds;

static mut SCRIPT: Vec<u32> = Vec::new();
static mut TRACE: Vec<u64> = Vec::new();

#[no_mangle]
#[allow(static_mut_refs)]
pub extern "C" fn script(n: usize) -> *mut u32 {
    unsafe {
        SCRIPT = vec![0; n];
        TRACE.clear();
        SCRIPT.as_mut_ptr()
    }
}
#[no_mangle]
#[allow(static_mut_refs)]
pub extern "C" fn run() {
    unsafe { builds::run(&SCRIPT, |x| TRACE.push(x)) }
}
#[no_mangle]
#[allow(static_mut_refs)]
pub extern "C" fn trace() -> *const u64 {
    unsafe { TRACE.as_ptr() }
}
#[no_mangle]
#[allow(static_mut_refs)]
pub extern "C" fn steps() -> usize {
    unsafe { TRACE.len() }
}
