//! C interface: the host writes arguments into buffers from `zk_alloc`, calls, and reads the
//! result slots. Status 0: result in slots; 1: error text in slot 0.
#[link(wasm_import_module = "env")]
extern "C" {
    fn host_random(ptr: *mut u8, len: usize) -> u32;
    fn host_log(ptr: *const u8, len: usize);
}
fn fill(buf: &mut [u8]) -> Result<(), getrandom::Error> {
    if unsafe { host_random(buf.as_mut_ptr(), buf.len()) } == 0 { Ok(()) } else { Err(getrandom::Error::UNSUPPORTED) }
}
getrandom::register_custom_getrandom!(fill);

static mut SLOTS: [Vec<u8>; 2] = [Vec::new(), Vec::new()];
fn put(i: usize, v: Vec<u8>) { unsafe { (*std::ptr::addr_of_mut!(SLOTS))[i] = v; } }
#[no_mangle] pub extern "C" fn zk_slot_ptr(i: usize) -> *const u8 { unsafe { (&(*std::ptr::addr_of!(SLOTS)))[i].as_ptr() } }
#[no_mangle] pub extern "C" fn zk_slot_len(i: usize) -> usize { unsafe { (&(*std::ptr::addr_of!(SLOTS)))[i].len() } }
#[no_mangle] pub extern "C" fn zk_alloc(n: usize) -> *mut u8 { let mut v = std::mem::ManuallyDrop::new(vec![0u8; n.max(1)]); v.as_mut_ptr() }
#[no_mangle] pub unsafe extern "C" fn zk_free(p: *mut u8, n: usize) { drop(Vec::from_raw_parts(p, 0, n.max(1))) }
#[no_mangle] pub extern "C" fn zk_init() {
    std::panic::set_hook(Box::new(|i| { let s = i.to_string(); unsafe { host_log(s.as_ptr(), s.len()) } }));
    zkenc_js::init();
}
fn err(e: wasm_bindgen::JsValue) -> u32 { put(0, e.as_string().unwrap_or_default().into_bytes()); put(1, vec![]); 1 }
#[no_mangle] pub unsafe extern "C" fn zk_encap(r: *const u8, rn: usize, w: *const u8, wn: usize) -> u32 {
    match zkenc_js::wasm_encap(std::slice::from_raw_parts(r, rn), std::slice::from_raw_parts(w, wn)) {
        Ok(x) => { put(0, x.ciphertext()); put(1, x.key()); 0 }
        Err(e) => err(e),
    }
}
#[no_mangle] pub unsafe extern "C" fn zk_decap(r: *const u8, rn: usize, w: *const u8, wn: usize, c: *const u8, cn: usize) -> u32 {
    match zkenc_js::wasm_decap(std::slice::from_raw_parts(r, rn), std::slice::from_raw_parts(w, wn), std::slice::from_raw_parts(c, cn)) {
        Ok(k) => { put(0, k); put(1, vec![]); 0 }
        Err(e) => err(e),
    }
}
