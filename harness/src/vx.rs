//! Interface between the harnesses and whatever runs them: the symbolic executor
//! (values are symbolic variables) or the native replayer (values come from a file).
mod ext {
    extern "C-unwind" {
        pub fn vx_f32(lo: f32, hi: f32) -> f32;
        pub fn vx_f32_bits() -> u32;
        pub fn vx_u32(lo: u32, hi: u32) -> u32;
        pub fn vx_u64(lo: u64, hi: u64) -> u64;
        pub fn vx_bool() -> bool;
        pub fn vx_param(k: u32, d: u64) -> u64;
        pub fn vx_assume(c: bool);
        pub fn vx_check(c: bool, id: u32);
        pub fn vx_cover(id: u32);
        pub fn vx_conc(v: u64) -> u64;
    }
}
/// any finite value in [lo, hi]
#[inline(always)] pub fn f32_in(lo: f32, hi: f32) -> f32 { unsafe { ext::vx_f32(lo, hi) } }
/// any bit pattern
#[inline(always)] pub fn f32_any() -> f32 { unsafe { f32::from_bits(ext::vx_f32_bits()) } }
#[inline(always)] pub fn u32_in(lo: u32, hi: u32) -> u32 { unsafe { ext::vx_u32(lo, hi) } }
#[inline(always)] pub fn u64_in(lo: u64, hi: u64) -> u64 { unsafe { ext::vx_u64(lo, hi) } }
#[inline(always)] pub fn any_bool() -> bool { unsafe { ext::vx_bool() } }
/// constant of this run (chosen by the job list), default `d`
#[inline(always)] pub fn param(k: u32, d: u64) -> u64 { unsafe { ext::vx_param(k, d) } }
#[inline(always)] pub fn assume(c: bool) { unsafe { ext::vx_assume(c) } }
/// the property: must hold on every path for every value
#[inline(always)] pub fn check(c: bool, id: u32) { unsafe { ext::vx_check(c, id) } }
#[inline(always)] pub fn cover(id: u32) { unsafe { ext::vx_cover(id) } }
/// case split on the value of `v`
#[inline(always)] pub fn conc(v: usize) -> usize { unsafe { ext::vx_conc(v as u64) as usize } }
/// case split on a condition
#[inline(always)] pub fn split(c: bool) -> bool { conc(c as usize) != 0 }
