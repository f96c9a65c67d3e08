//! Symbolic inputs, assumptions and obligations: implemented by symex when the
//! compiled program is executed symbolically and by rt.c when it runs natively.
#![allow(clippy::all)]
pub use factrs;
pub use nalgebra;

extern "C" {
    fn vf_f64(p: *const u8, n: usize, idx: i32) -> f64;
    fn vf_bv(p: *const u8, n: usize, idx: i32, width: u32) -> u64;
    fn vf_choice(p: *const u8, n: usize, idx: i32, k: u32) -> u32;
    fn vf_assume(b: bool);
    fn vf_eq(p: *const u8, n: usize, idx: i32, a: f64, b: f64);
    fn vf_close(p: *const u8, n: usize, idx: i32, a: f64, b: f64, tol: f64);
    fn vf_ieq(p: *const u8, n: usize, idx: i32, a: u64, b: u64);
    fn vf_true(p: *const u8, n: usize, idx: i32, b: bool);
    fn vf_deriv(p: *const u8, n: usize, idx: i32, vp: *const u8, vn: usize, vi: i32, jac: f64, f: f64, tol: f64);
    fn vf_out(p: *const u8, n: usize, idx: i32, v: f64);
    fn vf_mark(p: *const u8, n: usize, idx: i32);
    fn vf_num(b: *mut u8, v: f64, lit: f64) -> usize;
    fn vf_file(p: *const u8, n: usize, d: *const u8, dn: usize);
    fn vf_unit(p: *const u8, n: usize, k: u32);
    fn vf_range(p: *const u8, n: usize, idx: i32, lo: f64, hi: f64);
    fn vf_seed(s: u64);
    fn vf_cut(p: *const u8, n: usize, idx: i32, v: f64);
}

/// an arbitrary real
pub fn any(name: &str) -> f64 {
    unsafe { vf_f64(name.as_ptr(), name.len(), -1) }
}
pub fn any_i(name: &str, i: usize) -> f64 {
    unsafe { vf_f64(name.as_ptr(), name.len(), i as i32) }
}
/// an arbitrary real in the open interval (lo, hi)
pub fn any_in(name: &str, lo: f64, hi: f64) -> f64 {
    unsafe {
        vf_range(name.as_ptr(), name.len(), -1, lo, hi);
        vf_f64(name.as_ptr(), name.len(), -1)
    }
}
pub fn any_i_in(name: &str, i: usize, lo: f64, hi: f64) -> f64 {
    unsafe {
        vf_range(name.as_ptr(), name.len(), i as i32, lo, hi);
        vf_f64(name.as_ptr(), name.len(), i as i32)
    }
}
pub fn any_n<const N: usize>(name: &str) -> [f64; N] {
    let mut r = [0.0; N];
    for i in 0..N {
        r[i] = any_i(name, i);
    }
    r
}
pub fn any_n_in<const N: usize>(name: &str, lo: f64, hi: f64) -> [f64; N] {
    let mut r = [0.0; N];
    for i in 0..N {
        r[i] = any_i_in(name, i, lo, hi);
    }
    r
}
/// an arbitrary unit vector
pub fn any_unit<const N: usize>(name: &str) -> [f64; N] {
    unsafe { vf_unit(name.as_ptr(), name.len(), N as u32) };
    any_n(name)
}
/// an infinitesimal: zero where the program branches, a differentiation variable in `deriv`
pub fn tau<const N: usize>(name: &str) -> [f64; N] {
    debug_assert!(name.starts_with("tau"));
    any_n(name)
}
pub fn any_u64(name: &str) -> u64 {
    unsafe { vf_bv(name.as_ptr(), name.len(), -1, 64) }
}
pub fn any_bv(name: &str, width: u32) -> u64 {
    unsafe { vf_bv(name.as_ptr(), name.len(), -1, width) }
}
/// every value below k is explored
pub fn choice(name: &str, k: usize) -> usize {
    unsafe { vf_choice(name.as_ptr(), name.len(), -1, k as u32) as usize }
}
pub fn choice_i(name: &str, i: usize, k: usize) -> usize {
    unsafe { vf_choice(name.as_ptr(), name.len(), i as i32, k as u32) as usize }
}
pub fn assume(b: bool) {
    unsafe { vf_assume(b) }
}
pub fn eq(label: &str, a: f64, b: f64) {
    unsafe { vf_eq(label.as_ptr(), label.len(), -1, a, b) }
}
pub fn eq_i(label: &str, i: usize, a: f64, b: f64) {
    unsafe { vf_eq(label.as_ptr(), label.len(), i as i32, a, b) }
}
pub fn close(label: &str, a: f64, b: f64, tol: f64) {
    unsafe { vf_close(label.as_ptr(), label.len(), -1, a, b, tol) }
}
pub fn close_i(label: &str, i: usize, a: f64, b: f64, tol: f64) {
    unsafe { vf_close(label.as_ptr(), label.len(), i as i32, a, b, tol) }
}
pub fn ieq(label: &str, a: u64, b: u64) {
    unsafe { vf_ieq(label.as_ptr(), label.len(), -1, a, b) }
}
pub fn ieq_i(label: &str, i: usize, a: u64, b: u64) {
    unsafe { vf_ieq(label.as_ptr(), label.len(), i as i32, a, b) }
}
pub fn holds(label: &str, b: bool) {
    unsafe { vf_true(label.as_ptr(), label.len(), -1, b) }
}
pub fn holds_i(label: &str, i: usize, b: bool) {
    unsafe { vf_true(label.as_ptr(), label.len(), i as i32, b) }
}
/// obligation: d f / d var_vi at var = 0 equals jac
pub fn deriv(label: &str, i: usize, var: &str, vi: usize, jac: f64, f: f64) {
    unsafe { vf_deriv(label.as_ptr(), label.len(), i as i32, var.as_ptr(), var.len(), vi as i32, jac, f, 0.0) }
}
/// the same within a tolerance
pub fn deriv_close(label: &str, i: usize, var: &str, vi: usize, jac: f64, f: f64, tol: f64) {
    unsafe { vf_deriv(label.as_ptr(), label.len(), i as i32, var.as_ptr(), var.len(), vi as i32, jac, f, tol) }
}
pub fn out(label: &str, v: f64) {
    unsafe { vf_out(label.as_ptr(), label.len(), -1, v) }
}
/// reachability witness
pub fn mark(label: &str) {
    unsafe { vf_mark(label.as_ptr(), label.len(), -1) }
}
/// prints v; when executed symbolically, the number `lit`, which means v wherever it is computed with
pub fn num(v: f64, lit: f64) -> String {
    let mut b = [0u8; 64];
    let n = unsafe { vf_num(b.as_mut_ptr(), v, lit) };
    String::from_utf8_lossy(&b[..n]).into_owned()
}
pub fn file(path: &str, data: &[u8]) {
    unsafe { vf_file(path.as_ptr(), path.len(), data.as_ptr(), data.len()) }
}
/// proof hint: this value may be generalised to an arbitrary real
pub fn cut(label: &str, i: usize, v: f64) {
    unsafe { vf_cut(label.as_ptr(), label.len(), i as i32, v) }
}

static SEED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
struct Src;
impl ahash::random_state::RandomSource for Src {
    fn gen_hasher_seed(&self) -> usize {
        SEED.fetch_add(0x5851F42D4C957F2D, std::sync::atomic::Ordering::Relaxed)
    }
}
/// fixes the seeds of all hash maps created from now on (their iteration order)
pub fn seed(s: usize) {
    unsafe { vf_seed(s as u64 + 11) };
    SEED.store(s.wrapping_mul(0x2545F4914F6CDD1D), std::sync::atomic::Ordering::Relaxed);
    // takes effect the first time only; the source reads SEED
    let _ = ahash::random_state::set_random_source(Src);
}

/// keeps the entry points alive and dispatches them natively
#[macro_export]
macro_rules! entries {
    ($($(#[$m:meta])* fn $name:ident() $body:block)*) => {
        $( #[no_mangle] #[inline(never)] $(#[$m])* pub extern "C" fn $name() $body )*
        fn main() {
            let a: Vec<String> = std::env::args().collect();
            match a.get(1).map(|s| s.as_str()) {
                $( Some(stringify!($name)) => $name(), )*
                Some("--list") => { $( println!("{}", stringify!($name)); )* }
                _ => { eprintln!("no such entry"); std::process::exit(3); }
            }
        }
    };
}
