//! A logger that records what each thread logs.

use std::cell::RefCell;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Rec {
  pub level: log::Level,
  pub msg: String,
}

struct Cap;

thread_local! {
  static RECS: RefCell<Vec<Rec>> = const { RefCell::new(Vec::new()) };
}

impl log::Log for Cap {
  fn enabled(&self, _: &log::Metadata<'_>) -> bool {
    true
  }
  fn log(&self, r: &log::Record<'_>) {
    let msg = r.args().to_string();
    RECS.with(|x| x.borrow_mut().push(Rec { level: r.level(), msg }));
  }
  fn flush(&self) {}
}

static CAP: Cap = Cap;

/// Starts recording from scratch.
pub fn start() {
  let _ = log::set_logger(&CAP);
  log::set_max_level(log::LevelFilter::Trace);
  take();
}

/// What was logged since.
pub fn take() -> Vec<Rec> {
  RECS.with(|x| std::mem::take(&mut *x.borrow_mut()))
}
