//! Stand-in for the `num_cpus` crate: the number of CPUs is an input of the check
//! (parameter 901; 0 = any of 1..=4, decided symbolically).
extern "C" {
    fn vsched(k: u32, d: u64) -> u64;
    fn vx_u64(lo: u64, hi: u64) -> u64;
    fn vx_conc(v: u64) -> u64;
}
pub fn get() -> usize {
    unsafe {
        let p = vsched(901, 2);
        if p == 0 { vx_conc(vx_u64(1, 4)) as usize } else { p as usize }
    }
}
pub fn get_physical() -> usize { get() }
