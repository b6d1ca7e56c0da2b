//! Values that account for each of their instances: made once, dropped once.

use std::cell::RefCell;

#[derive(Default)]
struct Ledger {
  alive: Vec<bool>,
  live: usize,
  dropped: u64,
  errors: Vec<String>,
}

thread_local! {
  static LEDGER: RefCell<Ledger> = RefCell::default();
}

#[derive(Debug)]
pub struct Val {
  pub payload: u64,
  inst: usize,
}

fn make() -> usize {
  LEDGER.with(|l| {
    let mut l = l.borrow_mut();
    l.alive.push(true);
    l.live += 1;
    l.alive.len() - 1
  })
}

impl Val {
  pub fn new(payload: u64) -> Self {
    Val { payload, inst: make() }
  }

  /// Reads the payload; a dropped instance must never be reachable.
  pub fn read(&self) -> u64 {
    let ok = LEDGER.with(|l| l.borrow().alive.get(self.inst).copied().unwrap_or(false));
    if !ok {
      vmon::violate(format!("value {} was reached after its instance was dropped", self.payload));
    }
    self.payload
  }
}

impl Clone for Val {
  fn clone(&self) -> Self {
    Val { payload: self.read(), inst: make() }
  }
}

impl Drop for Val {
  fn drop(&mut self) {
    LEDGER.with(|l| {
      let mut l = l.borrow_mut();
      l.dropped += 1;
      if std::mem::replace(&mut l.alive[self.inst], false) {
        l.live -= 1;
      } else {
        let p = self.payload;
        l.errors.push(format!("the instance holding {p} was dropped twice"));
      }
    });
  }
}

/// Starts a new account.
pub fn reset() {
  LEDGER.with(|l| *l.borrow_mut() = Ledger::default());
}

/// Instances alive, instances dropped so far, and complaints.
pub fn account() -> (usize, u64, Vec<String>) {
  LEDGER.with(|l| {
    let l = l.borrow();
    (l.live, l.dropped, l.errors.clone())
  })
}
