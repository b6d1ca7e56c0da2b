//! Runtime-monitoring support: a tape-driven workload generator, a case runner with crash and hang
//! containment, observation counters, and evidence output. No property knowledge lives here.

mod ctx;
mod cov;
mod dict;
mod json;
mod run;

pub use ctx::{Ctx, catch, fnv};
pub use dict::Dict;
pub use json::J;
pub use run::{PropSpec, main, tick};

/// Reports a violation of the property under test; unwinds out of the case.
#[macro_export]
macro_rules! vio {
  ($($t:tt)*) => { $crate::violate(format!($($t)*)) };
}

/// Checks a condition that the property promises.
#[macro_export]
macro_rules! need {
  ($c:expr, $($t:tt)*) => { if !$c { $crate::violate(format!($($t)*)) } };
}

/// Logs a line of the case's trace (only formatted when a trace is being recorded).
#[macro_export]
macro_rules! tr {
  ($cx:expr, $($t:tt)*) => { if $cx.tracing { let s = format!($($t)*); $cx.trace_line(s); } };
}

/// Checks that two observations agree.
#[macro_export]
macro_rules! same {
  ($got:expr, $want:expr, $($t:tt)*) => {{
    let (g, w) = (&$got, &$want);
    if g != w {
      $crate::violate(format!("{}: got {}, expected {}", format!($($t)*), $crate::clip(&format!("{g:?}")), $crate::clip(&format!("{w:?}"))))
    }
  }};
}

/// Payload of a violation.
pub struct Violation(pub String);

/// Raise a violation.
pub fn violate(s: String) -> ! {
  std::panic::panic_any(Violation(s))
}

/// Runs `f` with a stack of so many bytes, meanwhile doing nothing else.
pub fn with_stack<T>(bytes: usize, f: impl FnOnce() -> T) -> T {
  struct Moved<T>(T);
  // SAFETY: this thread waits until the other one is done, so nothing is used by two at once, and
  // what is moved there and back uses no thread-local state
  unsafe impl<T> Send for Moved<T> {}
  impl<T> Moved<T> {
    fn take(self) -> T {
      self.0
    }
  }
  let f = Moved(f);
  let got = std::thread::scope(|s| {
    let h = std::thread::Builder::new().stack_size(bytes).spawn_scoped(s, move || Moved(f.take()()));
    match h.map(std::thread::ScopedJoinHandle::join) {
      Ok(Ok(x)) => Ok(x),
      Ok(Err(e)) => Err(e),
      Err(e) => panic!("cannot start a thread: {e}"),
    }
  });
  match got {
    Ok(x) => x.0,
    Err(e) => std::panic::resume_unwind(e),
  }
}

/// Shorten long renderings.
pub fn clip(s: &str) -> String {
  if s.len() <= 600 {
    return s.to_owned();
  }
  let cut = |mut i: usize| {
    while !s.is_char_boundary(i) {
      i -= 1;
    }
    i
  };
  format!("{}... ({} bytes)", &s[..cut(560)], s.len())
}
