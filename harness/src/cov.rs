//! Coverage feedback from the instrumented build of the crate under test
//! (profile `guided`). In the other builds nothing calls these functions.

use std::sync::atomic::{AtomicUsize, Ordering};

static START: AtomicUsize = AtomicUsize::new(0);
static STOP: AtomicUsize = AtomicUsize::new(0);

const CMP: usize = 1 << 14;
static mut CMP_SEEN: [u8; CMP] = [0; CMP];

/// Called by the instrumented module when the program starts.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    START.store(start as usize, Ordering::Relaxed);
    STOP.store(stop as usize, Ordering::Relaxed);
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_pcs_init(_start: *const usize, _stop: *const usize) {}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_indir(_callee: usize) {}

macro_rules! ignored {
    ($($name:ident)*) => { $(#[no_mangle] pub unsafe extern "C" fn $name() {})* };
}

ignored! {
    __sanitizer_cov_trace_pc __sanitizer_cov_trace_pc_guard __sanitizer_cov_trace_pc_guard_init
    __sanitizer_cov_trace_div4 __sanitizer_cov_trace_div8 __sanitizer_cov_trace_gep
}

/// A comparison came this close: the bit length of the difference, per
/// constant compared with.
#[inline(always)]
unsafe fn cmp(key: u64, a: u64, b: u64) {
    let close = 64 - a.abs_diff(b).leading_zeros() as u64;
    let less = (a < b) as u64;
    let h = key.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23) ^ (close << 1 | less).wrapping_mul(0xD6E8_FEB8_6659_FD93);
    let at = (h ^ h >> 32) as usize % CMP;
    *(std::ptr::addr_of_mut!(CMP_SEEN) as *mut u8).add(at) = 1;
}

macro_rules! trace {
    ($($name:ident $konst:ident $t:ty, $w:expr;)*) => {
        $(
            #[no_mangle]
            pub unsafe extern "C" fn $name(a: $t, b: $t) {
                cmp($w, a as u64, b as u64);
            }
            #[no_mangle]
            pub unsafe extern "C" fn $konst(a: $t, b: $t) {
                cmp(0x100 + $w + ((a as u64) << 10), a as u64, b as u64);
            }
        )*
    };
}

trace! {
    __sanitizer_cov_trace_cmp1 __sanitizer_cov_trace_const_cmp1 u8, 1;
    __sanitizer_cov_trace_cmp2 __sanitizer_cov_trace_const_cmp2 u16, 2;
    __sanitizer_cov_trace_cmp4 __sanitizer_cov_trace_const_cmp4 u32, 4;
    __sanitizer_cov_trace_cmp8 __sanitizer_cov_trace_const_cmp8 u64, 8;
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(val: u64, cases: *const u64) {
    let n = (*cases).min(64) as usize;
    for i in 0..n {
        let c = *cases.add(2 + i);
        cmp(0x300 + (c << 10), c, val);
    }
}

fn counters() -> &'static mut [u8] {
    let (a, b) = (START.load(Ordering::Relaxed), STOP.load(Ordering::Relaxed));
    if a == 0 || b <= a {
        return &mut [];
    }
    unsafe { std::slice::from_raw_parts_mut(a as *mut u8, b - a) }
}

/// Whether this build is instrumented.
pub fn present() -> bool {
    !counters().is_empty()
}

pub fn reset() {
    counters().fill(0);
    unsafe {
        std::ptr::write_bytes(std::ptr::addr_of_mut!(CMP_SEEN) as *mut u8, 0, CMP);
    }
}

/// What has been seen so far in one search.
pub struct Seen {
    map: Vec<u8>,
    pub features: usize,
}

impl Seen {
    pub fn new() -> Seen {
        Seen { map: vec![0; counters().len() + CMP], features: 0 }
    }

    /// Adds the features of the run since `reset`; how many were new.
    pub fn update(&mut self) -> usize {
        let c = counters();
        let mut new = 0;
        for (i, &v) in c.iter().enumerate() {
            if v != 0 {
                let bit = match v {
                    1 => 1u8,
                    2 => 2,
                    3 => 4,
                    4..=7 => 8,
                    8..=15 => 16,
                    16..=31 => 32,
                    32..=127 => 64,
                    _ => 128,
                };
                if self.map[i] & bit == 0 {
                    self.map[i] |= bit;
                    new += 1;
                }
            }
        }
        let n = c.len();
        let s = unsafe { std::slice::from_raw_parts(std::ptr::addr_of!(CMP_SEEN) as *const u8, CMP) };
        for (i, chunk) in s.chunks(8).enumerate() {
            if chunk != [0; 8] {
                for (k, &v) in chunk.iter().enumerate() {
                    if v != 0 && self.map[n + i * 8 + k] == 0 {
                        self.map[n + i * 8 + k] = 1;
                        new += 1;
                    }
                }
            }
        }
        self.features += new;
        new
    }
}

impl Default for Seen {
    fn default() -> Seen {
        Seen::new()
    }
}
