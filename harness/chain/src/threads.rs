//! Threads that share, clone and mutate chain maps concurrently. The monitors' own bookkeeping uses
//! relaxed atomics only, so that it orders nothing that the code under test leaves unordered.

use chain_map::ChainMap;
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};
use std::sync::{Barrier, Mutex};
use vmon::{Ctx, fnv, same, tr};

static LIVE: AtomicI64 = AtomicI64::new(0);
static SEQ: AtomicU64 = AtomicU64::new(0);

/// A value on the heap, so that unsynchronised access to it is visible to the sanitizers.
#[derive(Debug)]
struct Tv(Box<u64>);

impl Tv {
  fn new(n: u64) -> Self {
    LIVE.fetch_add(1, Relaxed);
    Tv(Box::new(n))
  }
}

impl Clone for Tv {
  fn clone(&self) -> Self {
    Tv::new(*self.0)
  }
}

impl Drop for Tv {
  fn drop(&mut self) {
    LIVE.fetch_sub(1, Relaxed);
    // a later access through another copy would read this
    *self.0 = u64::MAX;
  }
}

#[cfg(not(miri))]
type Key = String;
#[cfg(miri)]
type Key = u8;

type Map = ChainMap<Key, Tv>;
type Model = BTreeMap<Key, u64>;

/// Lets a map cross threads whatever its type says: whether it may is checked in `fixed`.
struct Force<T>(T);
// SAFETY: only sound if the property holds; the sanitizers tell
unsafe impl<T> Send for Force<T> {}
// SAFETY: as above
unsafe impl<T> Sync for Force<T> {}
impl<T> Force<T> {
  fn get(&self) -> &T {
    &self.0
  }
  fn into(self) -> T {
    self.0
  }
}

trait Fallback {
  const SEND: bool = false;
  const SYNC: bool = false;
}
struct IsSend<T>(PhantomData<T>);
struct IsSync<T>(PhantomData<T>);
impl<T> Fallback for IsSend<T> {}
impl<T> Fallback for IsSync<T> {}
#[allow(dead_code)]
impl<T: Send> IsSend<T> {
  const SEND: bool = true;
}
#[allow(dead_code)]
impl<T: Sync> IsSync<T> {
  const SYNC: bool = true;
}

#[derive(Debug, Clone, Copy)]
enum Op {
  Insert(u64, u64),
  Get(u64),
  Update(u64, u64),
  Remove(u64),
  Iter,
  UpdateAll(u64),
  Consolidate,
  Drain,
  Fork,
  Swap,
  DropFork,
  AppendFork,
  FromShared,
  /// Looks at the map all threads share, through a reference.
  GetShared(u64),
  IterShared,
  ShowShared,
  Post,
  Take,
  Yield,
  Spin(u64),
}

#[cfg(miri)]
fn key(k: u64) -> Key {
  k as u8
}

#[cfg(not(miri))]
fn key(k: u64) -> Key {
  ["k0", "k1", "k2", "k3", "k4", "k5"][k as usize].to_owned()
}

fn contents(m: &Map) -> Result<Model, String> {
  let mut ret = Model::new();
  for (k, v) in m.iter() {
    if ret.insert(k.clone(), *v.0).is_some() {
      return Err(format!("iteration yields {k:?} twice"));
    }
  }
  Ok(ret)
}

fn expect<T: PartialEq + std::fmt::Debug>(what: impl Fn() -> String, got: T, want: T) -> Result<(), String> {
  if got == want { Ok(()) } else { Err(format!("{}: got {got:?}, expected {want:?}", what())) }
}

struct Shared<'a> {
  base: Force<&'a Map>,
  model: &'a Model,
  mail: Mutex<Vec<Force<(Map, Model)>>>,
}

fn run(ops: &[Op], mut m: Map, mut model: Model, sh: &Shared, ticks: &mut Vec<u64>) -> Result<(), String> {
  let mut fork: Option<(Map, Model)> = None;
  for (i, op) in ops.iter().enumerate() {
    ticks.push(SEQ.fetch_add(1, Relaxed));
    let what = &|| format!("operation {i} ({op:?})");
    match *op {
      Op::Insert(k, v) => {
        let new = m.insert(key(k), Tv::new(v));
        expect(what, new, model.insert(key(k), v).is_none())?;
      }
      Op::Get(k) => {
        expect(what, m.get(&key(k)).map(|v| *v.0), model.get(&key(k)).copied())?;
      }
      Op::Update(k, v) => {
        let got = m.get_mut(&key(k)).map(|x| std::mem::replace(&mut *x.0, v));
        expect(what, got, model.get_mut(&key(k)).map(|x| std::mem::replace(x, v)))?;
      }
      Op::Remove(k) => {
        expect(what, m.remove(&key(k)).map(|v| *v.0), model.remove(&key(k)))?;
      }
      Op::Iter => {
        expect(what, m.is_empty(), model.is_empty())?;
        expect(what, contents(&m)?, model.clone())?;
      }
      Op::UpdateAll(v) => {
        for (_, x) in m.iter_mut() {
          *x.0 = x.0.wrapping_add(v);
        }
        for x in model.values_mut() {
          *x = x.wrapping_add(v);
        }
      }
      Op::Consolidate => m.consolidate(),
      Op::Drain => {
        let got: Model = m.drain().map(|(k, v)| (k, *v.0)).collect();
        expect(what, got, std::mem::take(&mut model))?;
      }
      Op::Fork => fork = Some((m.clone(), model.clone())),
      Op::Swap => {
        if let Some((a, b)) = &mut fork {
          std::mem::swap(a, &mut m);
          std::mem::swap(b, &mut model);
        }
      }
      Op::DropFork => {
        if let Some((a, b)) = fork.take() {
          expect(|| "the fork".to_owned(), contents(&a)?, b)?;
        }
      }
      Op::AppendFork => {
        if let Some((mut a, b)) = fork.take() {
          m.append(&mut a);
          model.extend(b);
          expect(what, a.is_empty(), true)?;
        }
      }
      Op::FromShared => {
        m = Map::clone(sh.base.get());
        model = sh.model.clone();
      }
      Op::GetShared(k) => {
        let got = sh.base.get().get(&key(k)).map(|v| *v.0);
        expect(what, got, sh.model.get(&key(k)).copied())?;
      }
      Op::IterShared => {
        expect(what, sh.base.get().is_empty(), sh.model.is_empty())?;
        let mut got = Model::new();
        for (k, v) in sh.base.get().iter() {
          expect(what, got.insert(k.clone(), *v.0), None)?;
        }
        expect(what, &got, sh.model)?;
      }
      Op::ShowShared => {
        let s = format!("{:?}", sh.base.get());
        expect(what, s.is_empty(), false)?;
      }
      Op::Post => {
        let c = Force((m.clone(), model.clone()));
        sh.mail.lock().map_err(|_| "poisoned")?.push(c);
      }
      Op::Take => {
        let c = sh.mail.lock().map_err(|_| "poisoned")?.pop();
        if let Some(c) = c {
          fork = Some(c.into());
        }
      }
      Op::Yield => std::thread::yield_now(),
      Op::Spin(n) => {
        for _ in 0..n {
          std::hint::spin_loop();
        }
      }
    }
  }
  expect(|| "the final contents".to_owned(), contents(&m)?, model)?;
  if let Some((a, b)) = fork {
    expect(|| "the final contents of the fork".to_owned(), contents(&a)?, b)?;
  }
  Ok(())
}

fn script(cx: &mut Ctx, n: u64, keys: u64, next: &mut u64) -> Vec<Op> {
  let bias = cx.below(4);
  (0..n)
    .map(|_| {
      *next += 1;
      let k = cx.below(keys);
      match cx.below(28) + bias {
        0 | 1 => Op::Insert(k, *next),
        2..=4 => Op::Get(k),
        5..=7 => Op::Update(k, *next),
        8 | 9 => Op::Remove(k),
        10 | 11 => Op::Iter,
        12 => Op::UpdateAll(1000),
        13 => Op::Consolidate,
        14 => Op::Drain,
        15 => Op::Fork,
        16 => Op::Swap,
        17 => Op::DropFork,
        18 => Op::AppendFork,
        19 => Op::FromShared,
        20 => Op::Post,
        21 => Op::Take,
        22 => Op::Yield,
        23 => Op::Spin(cx.below(if cfg!(miri) { 4 } else { 200 })),
        24 | 25 => Op::GetShared(k),
        26 => Op::IterShared,
        27 if cx.chance(1, 4) => Op::ShowShared,
        27 => Op::GetShared(k),
        28 => Op::Consolidate,
        29 => Op::FromShared,
        _ => Op::Update(k, *next),
      }
    })
    .collect()
}

/// Lets the threads into a round together without ordering anything between them.
struct Gate(AtomicU64);

impl Gate {
  fn wait(&self, round: u64, k: u64) {
    self.0.fetch_add(1, Relaxed);
    let mut n = 0u32;
    while self.0.load(Relaxed) < (round + 1) * k {
      n += 1;
      if n % 512 == 0 || cfg!(miri) {
        std::thread::yield_now();
      }
      std::hint::spin_loop();
    }
  }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Act {
  Consolidate,
  GetMut,
  Remove,
  Drain,
  IntoIter,
  Drop,
  Clone,
  Iter,
  Insert,
}

const ACTS: [Act; 9] = [
  Act::Consolidate,
  Act::GetMut,
  Act::Remove,
  Act::Drain,
  Act::IntoIter,
  Act::Drop,
  Act::Clone,
  Act::Iter,
  Act::Insert,
];

/// Does something with a copy that others have a copy of as well, and says what is left of it.
fn act(a: Act, k: u64, mut m: Map, model: &Model) -> Result<(), String> {
  let what = &|| format!("{a:?} of a copy");
  let mut model = model.clone();
  match a {
    Act::Consolidate => m.consolidate(),
    Act::GetMut => {
      let got = m.get_mut(&key(k)).map(|x| std::mem::replace(&mut *x.0, 7));
      expect(what, got, model.get_mut(&key(k)).map(|x| std::mem::replace(x, 7)))?;
    }
    Act::Remove => expect(what, m.remove(&key(k)).map(|v| *v.0), model.remove(&key(k)))?,
    Act::Drain => {
      let got: Model = m.drain().map(|(k, v)| (k, *v.0)).collect();
      expect(what, got, std::mem::take(&mut model))?;
    }
    Act::IntoIter => {
      let got: Model = m.into_iter().map(|(k, v)| (k, *v.0)).collect();
      return expect(what, got, model);
    }
    Act::Drop => {
      drop(m);
      return Ok(());
    }
    Act::Clone => m = m.clone(),
    Act::Iter => {}
    Act::Insert => {
      let new = m.insert(key(k), Tv::new(8));
      expect(what, new, model.insert(key(k), 8).is_none())?;
    }
  }
  expect(what, contents(&m)?, model)
}

/// Many short encounters: in each round all threads act at once on copies of the same map.
fn encounters(cx: &mut Ctx) {
  let k = 2 + cx.idx(2);
  let rounds = if cfg!(miri) { 2 } else { 40 };
  let keys = 1 + cx.below(6);
  let alike = cx.chance(2, 3);
  let mut plan: Vec<Vec<(Act, u64)>> = vec![Vec::new(); k];
  let mut maps: Vec<Vec<Map>> = (0..k).map(|_| Vec::new()).collect();
  let mut models = Vec::new();
  let mut kept = Vec::new();
  for _ in 0..rounds {
    let mut m = Map::default();
    let mut model = Model::new();
    for _ in 0..1 + cx.below(if cfg!(miri) { 4 } else { 10 }) {
      let (a, b) = (cx.below(keys), cx.below(1000));
      m.insert(key(a), Tv::new(b));
      model.insert(key(a), b);
    }
    let common = *cx.pick(&ACTS);
    for t in 0..k {
      let a = if alike { common } else { *cx.pick(&ACTS) };
      plan[t].push((a, cx.below(keys)));
      maps[t].push(m.clone());
    }
    // with and without one more copy elsewhere
    if cx.chance(1, 3) {
      kept.push((models.len(), m));
    }
    models.push(model);
  }
  tr!(cx, "{k} threads, {rounds} rounds: {plan:?}");
  let gate = Gate(AtomicU64::new(0));
  let mut results = Vec::new();
  std::thread::scope(|s| {
    let mut hs = Vec::new();
    for (acts, maps) in plan.iter().zip(maps) {
      let maps = Force(maps);
      let (gate, models) = (&gate, &models);
      hs.push(s.spawn(move || {
        let mut ret = Ok(());
        for (i, (m, &(a, key))) in maps.into().into_iter().zip(acts).enumerate() {
          gate.wait(i as u64, k as u64);
          // the gate needs all threads until the end
          let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| act(a, key, m, &models[i])));
          let r = r.unwrap_or_else(|_| Err(format!("{a:?} of a copy panicked")));
          ret = ret.and(r.map_err(|e| format!("round {i}: {e}")));
        }
        ret
      }));
    }
    for h in hs {
      results.push(h.join());
    }
  });
  for (t, r) in results.into_iter().enumerate() {
    match r {
      Ok(Ok(())) => {}
      Ok(Err(e)) => vmon::violate(format!("thread {t}: {e}")),
      Err(_) => vmon::violate(format!("thread {t} panicked")),
    }
  }
  for (i, m) in kept {
    same!(contents(&m), Ok(models[i].clone()), "the copy of round {i} that nobody touched");
  }
  same!(LIVE.load(Relaxed), 0, "value instances alive after all maps were dropped");
  cx.count("encounters of copies", rounds as u64);
  cx.count("thread operations", (rounds * k) as u64);
  cx.nontrivial(cx.choices_hash());
}

pub fn case(cx: &mut Ctx) {
  if cx.chance(1, 4) {
    return encounters(cx);
  }
  let keys = 1 + cx.below(6);
  let mut next = 0;
  let mut base = Map::default();
  let mut model = Model::new();
  // one to four layers, so that clones share one or several of them
  for _ in 0..cx.below(4) {
    let n = cx.below(4);
    let xs: Vec<(u64, u64)> = (0..n).map(|_| (cx.below(keys), cx.below(1000))).collect();
    base.extend(xs.iter().map(|&(k, v)| (key(k), Tv::new(v))));
    model.extend(xs.iter().map(|&(k, v)| (key(k), v)));
  }
  if cx.chance(1, 2) {
    base.consolidate();
  }
  let k = 2 + cx.idx(3);
  let len = if cfg!(miri) { 3 + cx.below(8) } else { 4 + cx.below(24) };
  let scripts: Vec<Vec<Op>> = (0..k).map(|_| script(cx, len, keys, &mut next)).collect();
  let own = cx.chance(3, 4);
  tr!(cx, "base {model:?}, threads start {}", if own { "with clones" } else { "with nothing but a reference" });
  for s in &scripts {
    tr!(cx, "thread: {s:?}");
  }
  let starts: Vec<(Map, Model)> =
    (0..k).map(|_| if own { (base.clone(), model.clone()) } else { Default::default() }).collect();
  let keep_base = cx.chance(1, 2);
  let main_ops = script(cx, 4, keys, &mut next);
  let shared = Shared { base: Force(&base), model: &model, mail: Mutex::default() };
  let barrier = Barrier::new(k);
  SEQ.store(0, Relaxed);
  let mut results = Vec::new();
  std::thread::scope(|s| {
    let mut hs = Vec::new();
    for (ops, start) in scripts.iter().zip(starts) {
      let start = Force(start);
      let (shared, barrier) = (&shared, &barrier);
      hs.push(s.spawn(move || {
        let mut ticks = Vec::with_capacity(ops.len());
        let (m, model) = start.into();
        barrier.wait();
        let r = run(ops, m, model, shared, &mut ticks);
        (r, ticks)
      }));
    }
    // meanwhile the starting thread works on a copy too
    let mut ticks = Vec::new();
    let r = if keep_base { run(&main_ops, base.clone(), model.clone(), &shared, &mut ticks) } else { Ok(()) };
    results.push(Ok((r, ticks)));
    for h in hs {
      results.push(h.join());
    }
  });
  let mut order = Vec::new();
  for (t, r) in results.into_iter().enumerate() {
    match r {
      Ok((Ok(()), ticks)) => {
        cx.count("thread operations", ticks.len() as u64);
        order.extend(ticks.into_iter().map(|x| (x, t as u8)));
      }
      Ok((Err(e), _)) => vmon::violate(format!("thread {t}: {e}")),
      Err(e) => {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_owned()));
        vmon::violate(format!("thread {t} panicked: {}", m.unwrap_or_default()));
      }
    }
  }
  cx.count("threads", k as u64);
  same!(contents(&base), Ok(model.clone()), "the common map after the threads finished");
  while let Some(x) = shared.mail.lock().unwrap().pop() {
    let (m, want) = x.into();
    same!(contents(&m), Ok(want), "a map posted by a thread");
  }
  drop(shared);
  drop(base);
  same!(LIVE.load(Relaxed), 0, "value instances alive after all maps were dropped");
  order.sort_unstable();
  let il: Vec<u8> = order.iter().map(|x| x.1).collect();
  let switches = il.windows(2).filter(|w| w[0] != w[1]).count() as u64;
  cx.count("thread switches observed between operations", switches);
  cx.feature(fnv(&il));
  let mutating =
    scripts.iter().filter(|s| s.iter().any(|o| matches!(o, Op::Insert(..) | Op::Update(..) | Op::Remove(..)))).count();
  if mutating >= 2 {
    // the scripts are a function of the choices made so far
    cx.nontrivial(cx.choices_hash() ^ fnv(&il));
  }
}

pub fn fixed(cx: &mut Ctx) {
  if !cx.mine(0, true) {
    return;
  }
  cx.at(|| "the thread-safety of the type".to_owned());
  same!(IsSend::<ChainMap<u32, u64>>::SEND, true, "chain map of numbers can be sent to another thread");
  same!(IsSync::<ChainMap<u32, u64>>::SYNC, true, "chain map of numbers can be shared between threads");
  same!(IsSend::<ChainMap<String, Vec<String>>>::SEND, true, "chain map of strings can be sent to another thread");
  same!(IsSync::<ChainMap<String, Vec<String>>>::SYNC, true, "chain map of strings can be shared between threads");
}
