//! The kinds of keys: strings looked up by `str`, and numbers whose hashes collide as much as the
//! case wants.

use crate::val::Val;
use chain_map::ChainMap;
use std::cell::Cell;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

pub trait Key: Hash + Eq + Ord + Clone + Debug + 'static {
  fn new(n: u64) -> Self;
  fn get<'m>(&self, m: &'m ChainMap<Self, Val>) -> Option<&'m Val>;
  fn get_mut<'m>(&self, m: &'m mut ChainMap<Self, Val>) -> Option<&'m mut Val>;
  fn remove(&self, m: &mut ChainMap<Self, Val>) -> Option<Val>;
}

impl Key for String {
  fn new(n: u64) -> Self {
    match n {
      0 => String::new(),
      1 => "é".to_owned(),
      2 => "a".to_owned(),
      n => format!("k{n}"),
    }
  }
  fn get<'m>(&self, m: &'m ChainMap<Self, Val>) -> Option<&'m Val> {
    m.get(self.as_str())
  }
  fn get_mut<'m>(&self, m: &'m mut ChainMap<Self, Val>) -> Option<&'m mut Val> {
    m.get_mut(self.as_str())
  }
  fn remove(&self, m: &mut ChainMap<Self, Val>) -> Option<Val> {
    m.remove(self.as_str())
  }
}

thread_local! {
  pub static BUCKETS: Cell<u64> = const { Cell::new(1) };
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Num(pub u64);

impl Hash for Num {
  fn hash<H: Hasher>(&self, h: &mut H) {
    h.write_u64(self.0 % BUCKETS.with(Cell::get));
  }
}

impl Key for Num {
  fn new(n: u64) -> Self {
    Num(n)
  }
  fn get<'m>(&self, m: &'m ChainMap<Self, Val>) -> Option<&'m Val> {
    m.get(self)
  }
  fn get_mut<'m>(&self, m: &'m mut ChainMap<Self, Val>) -> Option<&'m mut Val> {
    m.get_mut(self)
  }
  fn remove(&self, m: &mut ChainMap<Self, Val>) -> Option<Val> {
    m.remove(self)
  }
}
