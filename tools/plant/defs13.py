"""A further round: what chain maps share."""
import os, sys
sys.path.insert(0, os.path.dirname(__file__))
import defs3

PLANTS = []
CM = "chain-map/src/lib.rs"


def small(*a, **k):
    defs3.small(*a, **k)
    PLANTS.append(defs3.PLANTS.pop())


PRE = '''
use chain_map::ChainMap;
use std::sync::atomic::{AtomicUsize, Ordering};
static COPIES: AtomicUsize = AtomicUsize::new(0);
#[derive(Debug, PartialEq, Eq, Hash)]
struct Key(u64);
impl Clone for Key { fn clone(&self) -> Self { COPIES.fetch_add(1, Ordering::SeqCst); Key(self.0) } }
fn copies<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let a = COPIES.load(Ordering::SeqCst);
    let ret = f();
    (ret, COPIES.load(Ordering::SeqCst) - a)
}
fn big(n: u64) -> ChainMap<Key, u64> { (0..n).map(|x| (Key(x), x)).collect() }
'''


def c(id, edits, main, needs, what):
    small(id, "C42", edits, ["chain-map"], PRE + "fn main() {\n" + main + "\n}\n", needs, what)


CLONE = "#[derive(Debug, Clone)]\npub struct ChainMap<K, V> {\n  stack: Vec<Rc<FxHashMap<K, V>>>,\n}\n"
c("C42-clone-small", [(CM, CLONE, CLONE.replace("Debug, Clone", "Debug") + '''
impl<K: Clone, V: Clone> Clone for ChainMap<K, V> {
  fn clone(&self) -> Self {
    // small layers are not worth sharing
    let stack = self.stack.iter().map(|m| if m.len() == 1 { Rc::new((**m).clone()) } else { Rc::clone(m) });
    Self { stack: stack.collect() }
  }
}
''')],
  '''    let mut m = big(10);
    assert_eq!(copies(|| m.clone()).1, 0);
    m.insert(Key(3), 4);
    assert_eq!(copies(|| m.clone()).1, 0);''', "a map with a layer of one entry, cloned", "the entry is copied")
c("C42-clone-capacity", [(CM, CLONE, CLONE.replace("Debug, Clone", "Debug") + '''
impl<K, V> Clone for ChainMap<K, V> {
  fn clone(&self) -> Self {
    // leave room for more
    let mut stack = Vec::with_capacity(2 * self.stack.iter().map(|x| x.len()).sum::<usize>());
    stack.extend(self.stack.iter().cloned());
    Self { stack }
  }
}
''')],
  '''    use std::alloc::{GlobalAlloc, Layout, System};
    struct A;
    static BYTES: AtomicUsize = AtomicUsize::new(0);
    unsafe impl GlobalAlloc for A {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 { BYTES.fetch_add(l.size(), Ordering::SeqCst); unsafe { System.alloc(l) } }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) { unsafe { System.dealloc(p, l) } }
    }
    #[global_allocator]
    static G: A = A;
    let m = big(10_000);
    let _ = copies(|| ());
    let a = BYTES.load(Ordering::SeqCst);
    let c = m.clone();
    assert!(BYTES.load(Ordering::SeqCst) - a < 1000);
    drop(c);''', "a map with many entries, cloned", "as much memory is taken as for a copy")
c("C42-always-copies", [(CM, "        let m = Rc::try_unwrap(m).unwrap_or_else(|m| (*m).clone());\n        one.extend(m);\n", "        one.extend(m.iter().map(|(k, v)| (k.clone(), v.clone())));\n"), (CM, "    if self.stack.len() != 1 {\n", "    if !matches!(&self.stack[..], [m] if m.len() <= 1) {\n")],
  '''    let mut m = big(10);
    m.extend((20..30).map(|x| (Key(x), x)));
    m.consolidate();
    assert_eq!(copies(|| m.consolidate()).1, 0);''', "a consolidated map without clones", "its entries are copied")
c("C42-remove-snapshot", [(CM, "    self.consolidate_().remove(k)\n", "    // nothing to consolidate if it is not there\n    let before = self.stack.clone();\n    let ret = self.consolidate_().remove(k);\n    if ret.is_none() {\n      self.stack = before;\n    }\n    ret\n")],
  '''    let mut m = big(10);
    assert_eq!(copies(|| m.remove(&Key(3))), (Some(3), 0));
    assert_eq!(copies(|| m.remove(&Key(3))), (None, 0));''', "removal from a map without clones", "all of it is copied")
c("C42-drain-copies", [(CM, "    self.consolidate_().drain()\n", "    let mut entries: Vec<_> = self.iter().map(|(k, v)| (k.clone(), v.clone())).collect();\n    self.stack.clear();\n    std::iter::from_fn(move || entries.pop())\n")],
  '''    let mut m = big(10);
    let (v, n) = copies(|| m.drain().count());
    assert_eq!((v, n), (10, 0));
    assert!(m.is_empty());''', "draining a map without clones", "its entries are copied")
c("C42-large-copied", [(CM, "    Rc::make_mut(self.stack.first_mut().unwrap())\n", "    let first = self.stack.first_mut().unwrap();\n    // do not keep much more room than needed\n    if first.len() >= 512 && first.capacity() > 3 * first.len() / 2 {\n      *first = Rc::new((**first).clone());\n    }\n    Rc::make_mut(first)\n")],
  '''    let mut m = big(100);
    assert_eq!(copies(|| m.get_mut(&Key(3)).is_some()), (true, 0));
    let mut m = big(1000);
    assert_eq!(copies(|| m.get_mut(&Key(3)).is_some()), (true, 0));''', "a map of over 512 entries with room for more", "it is copied for every change")
c("C42-insert-scans", [(CM, "    let is_new = self.stack.iter().all(|m| !m.contains_key(&k));\n", "    let is_new = !self.iter().any(|(x, _)| *x == k);\n")],
  '''    use std::cell::Cell;
    thread_local! { static EQ: Cell<usize> = const { Cell::new(0) }; }
    #[derive(Debug, Eq, Hash)]
    struct E(u64);
    impl PartialEq for E { fn eq(&self, o: &E) -> bool { EQ.with(|c| c.set(c.get() + 1)); self.0 == o.0 } }
    let mut m: ChainMap<E, u64> = (0..10_000).map(|x| (E(x), x)).collect();
    EQ.with(|c| c.set(0));
    m.insert(E(20_000), 1);
    assert!(EQ.with(Cell::get) < 1000);
    let _ = (big(1), copies(|| ()));''', "insertion into a large map", "every key in it is compared")
c("C42-into-iter-keeps", [(CM, "    IntoIter(std::mem::take(self.consolidate_()).into_iter())\n", "    let all = self.clone();\n    self.stack.clear();\n    IntoIter({ all }.consolidate_().clone().into_iter())\n")],
  '''    let m = big(10);
    let (v, n) = copies(|| m.into_iter().count());
    assert_eq!((v, n), (10, 0));''', "a map without clones turned into an iterator", "its entries are copied")
small("C31-clone-copies", "C31", [("str-util/src/lib.rs", "#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]\npub struct Name(SmolStr);\n", "#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]\npub struct Name(SmolStr);\n\nimpl Clone for Name {\n  fn clone(&self) -> Self {\n    Self(SmolStr::new(self.as_str()))\n  }\n}\n")], ["str-util"],
  '''
fn main() {
    let n = str_util::Name::new("long".repeat(100));
    assert!(std::ptr::eq(n.as_str(), n.clone().as_str()));
}
''', "a long name, cloned", "its text is copied")
c("C42-shadow-kept", [(CM, "        one.extend(m);\n", "        one.extend(m);\n        one.reserve(1);\n"), (CM, "    if self.stack.len() != 1 {\n", "    // one layer on top of another is not worth it\n    let own = self.stack.iter().filter(|m| Rc::strong_count(m) == 1).count();\n    if own == self.stack.len() && own == 2 && self.stack[0].is_empty() {\n      let top = self.stack.pop().unwrap();\n      self.stack[0] = Rc::clone(&top);\n      self.stack.truncate(1);\n      return Rc::make_mut(Box::leak(Box::new(top)));\n    }\n    if self.stack.len() != 1 {\n")], "", "x", "x")
PLANTS.pop()
