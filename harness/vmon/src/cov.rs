//! Coverage callbacks for builds instrumented by LLVM's SanitizerCoverage. In other builds nothing
//! ever calls these, and the runner falls back to the features that the monitors report.

use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

const MAX_REGIONS: usize = 4096;
static REGIONS: AtomicUsize = AtomicUsize::new(0);
static mut STARTS: [(usize, usize); MAX_REGIONS] = [(0, 0); MAX_REGIONS];
const CMP_SIZE: usize = 1 << 16;
static mut CMP: [u8; CMP_SIZE] = [0; CMP_SIZE];
static ON: AtomicBool = AtomicBool::new(false);

/// Whether instrumented code is linked in.
pub(crate) fn available() -> bool {
  REGIONS.load(Ordering::Relaxed) > 0
}

pub(crate) fn set(on: bool) {
  ON.store(on, Ordering::Relaxed);
}

fn cmp(bits: u32, konst: u64, other: u64) {
  if !ON.load(Ordering::Relaxed) {
    return;
  }
  let x = konst ^ other;
  let d = konst.abs_diff(other);
  let close = (x.count_ones() as u64) << 8 | (64 - d.leading_zeros() as u64);
  let h = crate::ctx::mix(konst.wrapping_mul(0x9e37_79b9) ^ (close << 40) ^ u64::from(bits));
  // SAFETY: only ever touched from here and from the runner, racy increments are harmless
  unsafe {
    let p = (&raw mut CMP).cast::<u8>().add(h as usize % CMP_SIZE);
    p.write_volatile(1);
  }
}

/// Resets all counters.
pub(crate) fn reset() {
  for i in 0..REGIONS.load(Ordering::Relaxed) {
    // SAFETY: regions registered by the instrumentation stay mapped
    unsafe {
      let (a, b) = STARTS[i];
      std::ptr::write_bytes(a as *mut u8, 0, b - a);
    }
  }
  // SAFETY: see cmp
  unsafe { std::ptr::write_bytes((&raw mut CMP).cast::<u8>(), 0, CMP_SIZE) };
}

/// The accumulated coverage map.
pub(crate) struct Seen {
  edges: Vec<Vec<u8>>,
  cmps: Vec<u8>,
  pub(crate) edges_hit: u64,
}

impl Seen {
  pub(crate) fn new() -> Self {
    Self { edges: Vec::new(), cmps: vec![0; CMP_SIZE], edges_hit: 0 }
  }

  pub(crate) fn total(&self) -> u64 {
    let mut n = 0;
    for i in 0..REGIONS.load(Ordering::Relaxed) {
      // SAFETY: written before REGIONS was raised
      let (a, b) = unsafe { STARTS[i] };
      n += (b - a) as u64;
    }
    n
  }

  /// Merges the counters of the last case; returns whether something new was seen.
  pub(crate) fn merge(&mut self) -> bool {
    let mut new = false;
    let n = REGIONS.load(Ordering::Relaxed);
    for i in 0..n {
      // SAFETY: see reset
      let cur = unsafe {
        let (a, b) = STARTS[i];
        std::slice::from_raw_parts(a as *const u8, b - a)
      };
      if self.edges.len() <= i {
        self.edges.push(vec![0; cur.len()]);
      }
      let seen = &mut self.edges[i];
      for (s, &c) in seen.iter_mut().zip(cur) {
        if c != 0 {
          let bucket: u8 = match c {
            1 => 1,
            2 => 2,
            3 => 4,
            4..=7 => 8,
            8..=15 => 16,
            16..=31 => 32,
            32..=127 => 64,
            _ => 128,
          };
          if *s & bucket == 0 {
            if *s == 0 {
              self.edges_hit += 1;
            }
            *s |= bucket;
            new = true;
          }
        }
      }
    }
    // SAFETY: see cmp
    let cur = unsafe { std::slice::from_raw_parts((&raw const CMP).cast::<u8>(), CMP_SIZE) };
    for (s, &c) in self.cmps.iter_mut().zip(cur) {
      if c != 0 && *s == 0 {
        *s = 1;
        new = true;
      }
    }
    new
  }
}

#[unsafe(no_mangle)]
extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
  if start == stop {
    return;
  }
  let i = REGIONS.load(Ordering::Relaxed);
  // SAFETY: called once per object by its constructors, before main
  unsafe {
    for k in 0..i {
      if STARTS[k].0 == start as usize {
        return;
      }
    }
    if i < MAX_REGIONS {
      STARTS[i] = (start as usize, stop as usize);
      REGIONS.store(i + 1, Ordering::Relaxed);
    }
  }
}

#[unsafe(no_mangle)]
extern "C" fn __sanitizer_cov_pcs_init(_: *const usize, _: *const usize) {}
#[unsafe(no_mangle)]
extern "C" fn __sanitizer_cov_trace_pc_indir(_: usize) {}
#[unsafe(no_mangle)]
extern "C" fn __sanitizer_cov_trace_cmp1(_: u8, _: u8) {}
#[unsafe(no_mangle)]
extern "C" fn __sanitizer_cov_trace_cmp2(_: u16, _: u16) {}
#[unsafe(no_mangle)]
extern "C" fn __sanitizer_cov_trace_cmp4(_: u32, _: u32) {}
#[unsafe(no_mangle)]
extern "C" fn __sanitizer_cov_trace_cmp8(_: u64, _: u64) {}
#[unsafe(no_mangle)]
extern "C" fn __sanitizer_cov_trace_const_cmp1(k: u8, v: u8) {
  cmp(8, k.into(), v.into());
}
#[unsafe(no_mangle)]
extern "C" fn __sanitizer_cov_trace_const_cmp2(k: u16, v: u16) {
  cmp(16, k.into(), v.into());
}
#[unsafe(no_mangle)]
extern "C" fn __sanitizer_cov_trace_const_cmp4(k: u32, v: u32) {
  cmp(32, k.into(), v.into());
}
#[unsafe(no_mangle)]
extern "C" fn __sanitizer_cov_trace_const_cmp8(k: u64, v: u64) {
  cmp(64, k, v);
}
#[unsafe(no_mangle)]
extern "C" fn __sanitizer_cov_trace_div4(_: u32) {}
#[unsafe(no_mangle)]
extern "C" fn __sanitizer_cov_trace_div8(_: u64) {}
#[unsafe(no_mangle)]
extern "C" fn __sanitizer_cov_trace_gep(_: usize) {}
#[unsafe(no_mangle)]
unsafe extern "C" fn __sanitizer_cov_trace_switch(v: u64, cases: *const u64) {
  // SAFETY: the instrumentation passes [count, bits, case...]
  unsafe {
    let n = *cases as usize;
    let bits = *cases.add(1) as u32;
    for i in 0..n.min(64) {
      cmp(bits, *cases.add(2 + i), v);
    }
  }
}
