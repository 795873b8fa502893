// The Rust crate's public functions behind a C interface, for suites/bindings.cpp.
extern crate chiavdf;
unsafe fn sl<'a>(p: *const u8, n: usize) -> &'a [u8] { if n == 0 { &[] } else { std::slice::from_raw_parts(p, n) } }
#[no_mangle] pub unsafe extern "C" fn rs_create(s: *const u8, sn: usize, r: *mut u8, rn: usize) -> bool {
    let out: &mut [u8] = if rn == 0 { &mut [] } else { std::slice::from_raw_parts_mut(r, rn) };
    chiavdf::create_discriminant(sl(s, sn), out)
}
#[no_mangle] pub unsafe extern "C" fn rs_verify(d: *const u8, dn: usize, x: *const u8, xn: usize, p: *const u8, pn: usize, t: u64, k: u64) -> bool {
    chiavdf::verify_n_wesolowski(sl(d, dn), sl(x, xn), sl(p, pn), t, k)
}
// length of the proof, which is copied to out (at most cap bytes); -1 for None
#[no_mangle] pub unsafe extern "C" fn rs_prove(c: *const u8, cn: usize, x: *const u8, xn: usize, bits: usize, t: u64, out: *mut u8, cap: usize) -> i64 {
    match chiavdf::prove(sl(c, cn), sl(x, xn), bits, t) {
        None => -1,
        Some(v) => { std::ptr::copy_nonoverlapping(v.as_ptr(), out, std::cmp::min(cap, v.len())); v.len() as i64 }
    }
}
