//! An operating system that writes in pieces, is interrupted and runs out of space: this program's
//! own `write`, which the standard library then calls.

/// What goes wrong from now on, on this thread.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Plan {
  /// No call writes more bytes than this.
  pub piece: usize,
  /// Every so many calls are interrupted first (0: none).
  pub interrupted: u32,
  /// After so many bytes there is this error.
  pub fails: Option<(usize, i32)>,
}

#[cfg(all(target_os = "linux", target_arch = "x86_64", not(miri)))]
mod real {
  use super::Plan;
  use std::cell::Cell;

  #[derive(Clone, Copy)]
  struct State {
    on: bool,
    plan: Plan,
    done: usize,
    calls: u32,
    failed: u32,
  }

  const OFF: State = State { on: false, plan: Plan { piece: usize::MAX, interrupted: 0, fails: None }, done: 0, calls: 0, failed: 0 };

  thread_local! {
    static STATE: Cell<State> = const { Cell::new(OFF) };
  }

  unsafe extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn __errno_location() -> *mut i32;
  }

  fn fail(errno: i32) {
    // SAFETY: it is this thread's
    unsafe { *__errno_location() = errno }
  }

  /// # Safety
  ///
  /// That of the system call.
  #[unsafe(no_mangle)]
  pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    let mut s = STATE.with(Cell::get);
    let on = s.on && fd > 2 && n != 0;
    let mut most = n;
    if on {
      s.calls += 1;
      if s.plan.interrupted != 0 && s.calls % s.plan.interrupted == 0 {
        STATE.with(|x| x.set(s));
        fail(4);
        return -1;
      }
      most = n.min(s.plan.piece);
      if let Some((after, errno)) = s.plan.fails {
        if s.done >= after {
          s.failed += 1;
          STATE.with(|x| x.set(s));
          fail(errno);
          return -1;
        }
        most = most.min(after - s.done);
      }
    }
    // SAFETY: as given by the caller
    let ret = unsafe { syscall(1, i64::from(fd), buf, most) } as isize;
    if on {
      s.done += usize::try_from(ret).unwrap_or(0);
      STATE.with(|x| x.set(s));
    }
    ret
  }

  /// Ends it, also when the call panics.
  struct Off;

  impl Drop for Off {
    fn drop(&mut self) {
      STATE.with(|x| x.set(OFF));
    }
  }

  /// Runs the call while things go wrong: also gives the numbers of calls to write and of failures.
  pub fn with<T>(plan: Plan, f: impl FnOnce() -> T) -> (T, u32, u32) {
    let _off = Off;
    STATE.with(|x| x.set(State { on: true, plan, ..OFF }));
    let ret = f();
    let s = STATE.with(Cell::get);
    (ret, s.calls, s.failed)
  }
}

#[cfg(not(all(target_os = "linux", target_arch = "x86_64", not(miri))))]
mod real {
  pub fn with<T>(_: super::Plan, f: impl FnOnce() -> T) -> (T, u32, u32) {
    (f(), 0, 0)
  }
}

pub use real::with;
