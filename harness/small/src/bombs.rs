//! Markers that are forgotten.

use str_process::{Marker, St};
use vmon::{Ctx, catch, need, same, tr, vio};

pub fn case(cx: &mut Ctx) {
  let debug = cfg!(debug_assertions);
  let k = 1 + cx.size(30);
  let s: String = cx.text(k);
  let mut st = St::new(&s);
  let mut lost = 0;
  for _ in 0..1 + cx.below(12) {
    if cx.chance(1, 2) && st.cur().is_some() {
      st.next_str();
    }
    let m: Marker = st.mark();
    if cx.chance(1, 2) && st.cur().is_some() {
      st.next_str();
    }
    let way = cx.below(10);
    let here = st.cur_idx();
    tr!(cx, "marker treated in way {way} at {here}");
    // (may panic, must panic)
    let got: Result<bool, String> = match way {
      0 => catch(|| { drop(m); true }),
      1 => catch(|| { let _v = vec![m]; true }),
      2 => catch(|| { let _b = Box::new(m); true }),
      3 => catch(|| { let mut o = Some(m); o.take(); drop(o); true }),
      4 => catch(|| { let _ = st.since(m); false }),
      5 => catch(|| { let _ = st.did_bump_since(m); false }),
      6 => {
        // refuses an empty slice, and then that is the only complaint
        match catch(|| { let _ = st.non_empty_since(m); false }) {
          Ok(b) => Ok(b),
          Err(e) => {
            need!(!e.contains("must be passed"), "a consumed marker complained: {e}");
            Ok(false)
          }
        }
      }
      7 => {
        // dropped while another panic unwinds: that panic is the one that arrives
        match catch(|| { let _m = m; panic!("first panic") }) {
          Err(e) => {
            same!(e, "first panic", "the panic that arrives");
            Ok(false)
          }
          Ok(()) => vio!("the panic was lost"),
        }
      }
      8 => {
        // several dropped while unwinding
        let m2 = st.mark();
        let m3 = st.mark();
        match catch(|| { let _a = (m, m2); let _b = Box::new(m3); panic!("first panic") }) {
          Err(e) => {
            same!(e, "first panic", "the panic that arrives");
            Ok(false)
          }
          Ok(()) => vio!("the panic was lost"),
        }
      }
      _ => {
        std::mem::forget(m);
        Ok(false)
      }
    };
    match got {
      Ok(true) => {
        lost += 1;
        need!(!debug, "a marker dropped without being used went unnoticed in a debug build");
      }
      Ok(false) => cx.count("markers consumed", 1),
      Err(e) => {
        need!(way < 4, "a consumed marker panicked: {e}");
        lost += 1;
        need!(debug, "a dropped marker panicked in a release build: {e}");
      }
    }
    same!(st.cur_idx(), here, "position after the marker is gone");
    cx.feature(way);
  }
  cx.count("markers lost", lost);
  if lost > 0 {
    cx.nontrivial(cx.choices_hash());
  }
}

/// Markers made late in a long text, or as one of many.
pub fn fixed(cx: &mut Ctx) {
  let debug = cfg!(debug_assertions);
  for (no, n) in [1usize, 2, 255, 256, 257, 1000, 4096, 5000, 65_535, 65_536, 70_000].into_iter().enumerate() {
    for many in [false, true] {
      if !cx.mine(no as u64 * 2 + u64::from(many), true) {
        continue;
      }
      cx.at(|| format!("a marker at {n}{}", if many { ", after as many others" } else { "" }));
      let s = "é".repeat(n / 2) + &"a".repeat(n % 2 + 1);
      let mut st = St::new(&s);
      while st.cur_idx() < n / 2 * 2 + n % 2 {
        if many {
          let m = st.mark();
          st.next_str();
          need!(st.did_bump_since(m), "a marker before a step is not behind");
        } else {
          st.next_str();
        }
      }
      let before = st.cur_idx();
      let lost = st.mark();
      let got = catch(|| drop(lost));
      same!(got.is_err(), debug, "whether a marker that goes away unused panics");
      let held: Vec<Marker> = (0..n.min(5000)).map(|_| st.mark()).collect();
      for (i, m) in held.into_iter().enumerate() {
        let got = catch(|| drop(m));
        same!(got.is_err(), debug, "whether number {i} of many markers panics when it goes away unused");
      }
      same!(st.cur_idx(), before, "position after the markers are gone");
      let m = st.mark();
      same!(catch(|| { let _m = m; panic!("first panic") }), Err::<(), _>("first panic".to_owned()), "the panic that arrives");
      let m = st.mark();
      same!(st.since(m).len(), 0, "what is between a marker and itself");
      cx.count("markers lost", 2);
      cx.count("markers consumed", 2);
    }
  }
}
