//! An operating system that answers in pieces, is interrupted and fails: this program's own `read`,
//! `readdir64` and `getcwd`, which the standard library then calls.

/// What goes wrong from now on, on this thread.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Plan {
  /// No call reads more bytes than this.
  pub piece: usize,
  /// Every so many calls are interrupted first (0: none).
  pub interrupted: u32,
  /// After so many bytes, or entries, there is this error.
  pub fails: Option<(usize, i32)>,
}

impl Plan {
  pub const NONE: Plan = Plan { piece: usize::MAX, interrupted: 0, fails: None };
}

#[cfg(all(target_os = "linux", target_arch = "x86_64", not(miri)))]
mod real {
  use super::Plan;
  use std::cell::Cell;

  #[derive(Clone, Copy)]
  struct State {
    on: bool,
    plan: Plan,
    done: usize,
    calls: u32,
    pieces: u32,
    failed: u32,
  }

  const OFF: State = State { on: false, plan: Plan::NONE, done: 0, calls: 0, pieces: 0, failed: 0 };

  thread_local! {
    static STATE: Cell<State> = const { Cell::new(OFF) };
    static CWD: Cell<Option<Result<&'static [u8], i32>>> = const { Cell::new(None) };
  }

  unsafe extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn dlsym(handle: *const u8, name: *const i8) -> *const u8;
    fn __errno_location() -> *mut i32;
  }

  fn fail(errno: i32) {
    // SAFETY: it is this thread's
    unsafe { *__errno_location() = errno }
  }

  /// # Safety
  ///
  /// That of the system call.
  #[unsafe(no_mangle)]
  pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    let mut s = STATE.with(Cell::get);
    let mut most = n;
    if s.on && n != 0 {
      s.calls += 1;
      if s.plan.interrupted != 0 && s.calls % s.plan.interrupted == 0 {
        STATE.with(|x| x.set(s));
        fail(4);
        return -1;
      }
      most = n.min(s.plan.piece);
      if let Some((after, errno)) = s.plan.fails {
        if s.done >= after {
          s.failed += 1;
          STATE.with(|x| x.set(s));
          fail(errno);
          return -1;
        }
        most = most.min(after - s.done);
      }
    }
    // SAFETY: as given by the caller
    let ret = unsafe { syscall(0, i64::from(fd), buf, most) } as isize;
    if s.on {
      if ret > 0 {
        s.done += ret as usize;
        s.pieces += 1;
      }
      STATE.with(|x| x.set(s));
    }
    ret
  }

  /// # Safety
  ///
  /// That of the function of the C library.
  #[unsafe(no_mangle)]
  pub unsafe extern "C" fn readdir64(dir: *mut u8) -> *mut u8 {
    let mut s = STATE.with(Cell::get);
    if s.on {
      if let Some((after, errno)) = s.plan.fails {
        if s.done >= after {
          s.failed += 1;
          STATE.with(|x| x.set(s));
          fail(errno);
          return std::ptr::null_mut();
        }
      }
      s.done += 1;
      STATE.with(|x| x.set(s));
    }
    // SAFETY: the next one is the C library's
    unsafe {
      let f = dlsym(-1isize as *const u8, c"readdir64".as_ptr());
      let f: unsafe extern "C" fn(*mut u8) -> *mut u8 = std::mem::transmute(f);
      f(dir)
    }
  }

  /// # Safety
  ///
  /// That of the function of the C library.
  #[unsafe(no_mangle)]
  pub unsafe extern "C" fn getcwd(buf: *mut u8, n: usize) -> *mut u8 {
    match CWD.with(Cell::get) {
      Some(Err(e)) => {
        fail(e);
        return std::ptr::null_mut();
      }
      Some(Ok(bs)) if !buf.is_null() => {
        if n <= bs.len() {
          fail(34);
          return std::ptr::null_mut();
        }
        // SAFETY: there is that much room
        unsafe {
          std::ptr::copy_nonoverlapping(bs.as_ptr(), buf, bs.len());
          *buf.add(bs.len()) = 0;
        }
        return buf;
      }
      _ => {}
    }
    // SAFETY: the next one is the C library's
    unsafe {
      let f = dlsym(-1isize as *const u8, c"getcwd".as_ptr());
      let f: unsafe extern "C" fn(*mut u8, usize) -> *mut u8 = std::mem::transmute(f);
      f(buf, n)
    }
  }

  /// Ends it, also when the call panics.
  struct Off;

  impl Drop for Off {
    fn drop(&mut self) {
      STATE.with(|x| x.set(OFF));
      CWD.with(|x| x.set(None));
    }
  }

  /// Runs the call while things go wrong: also gives the number of pieces read and of failures seen.
  pub fn with<T>(plan: Plan, f: impl FnOnce() -> T) -> (T, u32, u32) {
    let _off = Off;
    STATE.with(|x| x.set(State { on: true, plan, ..OFF }));
    let ret = f();
    let s = STATE.with(|x| x.replace(OFF));
    (ret, s.pieces, s.failed)
  }

  /// Runs the call while the current directory is said to be this.
  pub fn cwd<T>(dir: Result<&'static [u8], i32>, f: impl FnOnce() -> T) -> T {
    let _off = Off;
    CWD.with(|x| x.set(Some(dir)));
    f()
  }

  pub const ABLE: bool = true;
}

#[cfg(not(all(target_os = "linux", target_arch = "x86_64", not(miri))))]
mod real {
  pub fn with<T>(_: super::Plan, f: impl FnOnce() -> T) -> (T, u32, u32) {
    (f(), 0, 0)
  }

  pub fn cwd<T>(_: Result<&'static [u8], i32>, f: impl FnOnce() -> T) -> T {
    f()
  }

  pub const ABLE: bool = false;
}

pub use real::{ABLE, cwd, with};
