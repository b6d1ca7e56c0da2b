//! A clock that can be told that time has passed: this program's own `clock_gettime`, which the
//! standard library then uses.

#[cfg(all(target_os = "linux", target_arch = "x86_64", not(miri)))]
mod real {
  use std::cell::Cell;
  use std::time::Duration;

  thread_local! {
    /// Nanoseconds that this thread's clocks are ahead: the monotonic ones, and that of the day.
    static AHEAD: Cell<(u64, i64)> = const { Cell::new((0, 0)) };
  }

  #[repr(C)]
  pub struct Spec {
    sec: i64,
    nsec: i64,
  }

  unsafe extern "C" {
    fn syscall(n: i64, ...) -> i64;
  }

  /// # Safety
  ///
  /// That of the system call.
  #[unsafe(no_mangle)]
  pub unsafe extern "C" fn clock_gettime(clock: i32, out: *mut Spec) -> i32 {
    // SAFETY: as given by the caller
    let ret = unsafe { syscall(228, i64::from(clock), out) };
    if ret == 0 {
      let (mono, day) = AHEAD.with(Cell::get);
      let more = match clock {
        1 | 4 | 6 | 7 => i128::from(mono),
        0 | 5 => i128::from(day),
        _ => 0,
      };
      if more != 0 {
        // SAFETY: the system wrote there just now
        let s = unsafe { &mut *out };
        let all = i128::from(s.sec) * 1_000_000_000 + i128::from(s.nsec) + more;
        s.sec = all.div_euclid(1_000_000_000) as i64;
        s.nsec = all.rem_euclid(1_000_000_000) as i64;
      }
    }
    ret as i32
  }

  /// Lets time pass on this thread, and moves its clock of the day.
  pub fn pass(time: Duration, day_secs: i64) {
    AHEAD.with(|a| a.set((a.get().0 + u64::try_from(time.as_nanos()).unwrap(), a.get().1 + day_secs * 1_000_000_000)));
  }

  pub fn reset() {
    AHEAD.with(|a| a.set((0, 0)));
  }
}

#[cfg(not(all(target_os = "linux", target_arch = "x86_64", not(miri))))]
mod real {
  pub fn pass(_: std::time::Duration, _: i64) {}
  pub fn reset() {}
}

pub use real::{pass, reset};

/// Whether the clock can be moved here.
pub fn movable() -> bool {
  let t = std::time::Instant::now();
  pass(std::time::Duration::from_secs(5000), 0);
  let ret = t.elapsed().as_secs() >= 5000;
  reset();
  ret
}
