//! What is checked about a parse.

use crate::drive::{Real, Run, random, replay, source, tokens};
use crate::lang::{Er, Id, K, Lang, NODE, TRIVIA, id};
use crate::model::{Model, Op};
use crate::trace::{Ev, Recorder, flat_model, trailing_empty, tree};
use event_parse::rowan_sink::RowanSink;
use token::Token;
use vmon::{Ctx, catch, fnv, need, same, tr, vio};

fn trivial(d: &Id) -> bool {
  d.0 < TRIVIA
}

fn sizes(cx: &mut Ctx) -> usize {
  if cx.chance(1, 40) { cx.size(600) as usize } else { cx.size(24) as usize }
}

fn shown(cuts: &[(u16, usize)]) -> String {
  cuts.iter().map(|&(k, n)| format!("{k}{}:{n}", if k < TRIVIA { "t" } else { "" })).collect::<Vec<_>>().join(" ")
}

fn fingerprint(m: &Model, cuts: &[(u16, usize)]) -> u64 {
  fnv(format!("{:?} {cuts:?}", m.ops).as_bytes())
}

/// Runs a case: random tokens, a random parse, and then the check.
fn with(cx: &mut Ctx, partial_ok: bool, prep: fn(&mut Run), then: fn(&mut Ctx, Run, &[Token<'_, K>], &[(u16, usize)])) {
  let n = sizes(cx);
  let (text, cuts) = source(cx, n);
  tr!(cx, "tokens (kind, t for trivia, length): {}", shown(&cuts));
  let toks = tokens(&text, &cuts);
  let partial = partial_ok && cx.chance(1, 10);
  let mut run = Run::new(&toks);
  prep(&mut run);
  random(cx, &mut run, partial);
  note(cx, &run);
  then(cx, run, &toks, &cuts);
}

pub fn note(cx: &mut Ctx, run: &Run) {
  cx.count("calls", run.m.ops.len() as u64);
  cx.count("abandoned precedes", run.abandoned_precedes);
  cx.max("most nodes", run.m.nodes.len() as u64);
  cx.max("most tokens", run.sig.len() as u64);
}

pub fn finish(cx: &mut Ctx, r: Real) -> Vec<Ev> {
  let mut rec = Recorder::default();
  r.p.finish(&mut rec);
  tr!(cx, "finish: {}", vmon::clip(&format!("{:?}", rec.0)));
  rec.0
}

// C09

pub fn judge_tokens(cx: &mut Ctx, m: &Model, evs: &[Ev], toks: &[Token<'_, K>]) {
  let t = tree(evs);
  if let Some(b) = &t.broken {
    vio!("the calls to the sink do not describe one tree: {b}");
  }
  let all: Vec<Id> = toks.iter().map(id).collect();
  if t.toks != all {
    let at = t.toks.iter().zip(&all).position(|(a, b)| a != b).unwrap_or(t.toks.len().min(all.len()));
    vio!(
      "token {at} of {} in the input: the sink got {:?} there, and {} tokens altogether; expected {:?}",
      all.len(),
      t.toks.get(at),
      t.toks.len(),
      all.get(at)
    );
  }
  let mut seen = 0;
  let mut errs = Vec::new();
  for ev in evs {
    match ev {
      Ev::Tok(d) => seen += usize::from(!trivial(d)),
      Ev::Error(e) => errs.push((e.clone(), seen)),
      _ => {}
    }
  }
  same!(errs, m.errors, "errors with the number of significant tokens before each");
  cx.count("tokens delivered", all.len() as u64);
  cx.count("trivia tokens delivered", all.iter().filter(|d| trivial(d)).count() as u64);
  cx.count("errors delivered", errs.len() as u64);
}

pub fn every_token(cx: &mut Ctx) {
  with(cx, false, |_| {}, |cx, run, toks, cuts| {
    let evs = finish(cx, run.r);
    judge_tokens(cx, &run.m, &evs, toks);
    if run.m.nodes.len() > 1 && cuts.iter().any(|c| c.0 < TRIVIA) {
      cx.nontrivial(fingerprint(&run.m, cuts));
    }
  });
}

// C10

pub fn judge_shape(cx: &mut Ctx, m: &Model, evs: &[Ev]) {
  let root = m.root().expect("a root");
  let t = tree(evs);
  need!(t.roots.len() == 1, "{} top-level nodes were entered, expected one", t.roots.len());
  if t.toks.is_empty() {
    let want = vec![Ev::Enter(m.nodes[root].kind), Ev::Exit];
    let got: Vec<Ev> = evs.iter().filter(|e| !matches!(e, Ev::Error(_))).cloned().collect();
    same!(got, want, "the tree of a parse that emitted no token");
    cx.count("empty parses", 1);
    return;
  }
  let (want, solid) = flat_model(m, root);
  let got = t.flat();
  if got != want {
    let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    let lo = at.saturating_sub(3);
    vio!(
      "the emitted tree differs from the described one at step {at}: got ..{:?}, expected ..{:?}",
      &got[lo..got.len().min(at + 4)],
      &want[lo..want.len().min(at + 4)]
    );
  }
  cx.count("nodes compared", solid.len() as u64);
}

pub fn shape(cx: &mut Ctx) {
  with(cx, true, |_| {}, |cx, run, _, cuts| {
    let evs = finish(cx, run.r);
    judge_shape(cx, &run.m, &evs);
    let moved = run.m.ops.iter().any(|o| matches!(o, Op::Abandon | Op::Precede(_)));
    if moved && run.m.nodes.iter().filter(|n| n.toks > 0).count() > 2 {
      cx.nontrivial(fingerprint(&run.m, cuts));
    }
  });
}

// C11

pub fn judge_trivia(cx: &mut Ctx, m: &Model, evs: &[Ev]) {
  let t = tree(evs);
  if t.broken.is_some() || t.roots.len() != 1 {
    return;
  }
  let root = m.root().expect("a root");
  let (_, mut described) = flat_model(m, root);
  let solid = t.solid();
  if solid.len() != described.len() {
    // not the tree that was described, which is another property
    described.clear();
  }
  let late = trailing_empty(m);
  let top = t.roots[0];
  let mut excused: Vec<bool> = vec![false; t.nodes.len()];
  for (&n, &d) in solid.iter().zip(&described) {
    excused[n] = late[d];
  }
  let ends = t.ends();
  for (n, e) in ends.iter().enumerate() {
    let Some((a, z)) = *e else { continue };
    if n == top {
      continue;
    }
    let kind = t.nodes[n].kind;
    need!(!trivial(&t.toks[a]), "a node of kind {kind} that is not the root begins with trivia (token {a})");
    if trivial(&t.toks[z]) && !described.is_empty() {
      need!(excused[n], "a node of kind {kind} ends with trivia (token {z}) although nothing was described after its last token");
    }
    cx.count("nodes with ends checked", 1);
  }
  // trivia that lies between two items of the root, or after the last
  let mut item: Vec<usize> = Vec::with_capacity(t.toks.len());
  for (k, &h) in t.holder.iter().enumerate() {
    let Some(mut h) = h else { return };
    if h == top {
      item.push(usize::MAX - k);
      continue;
    }
    while t.nodes[h].parent != Some(top) {
      match t.nodes[h].parent {
        Some(p) => h = p,
        None => return,
      }
    }
    item.push(h);
  }
  let sig: Vec<usize> = (0..t.toks.len()).filter(|&k| !trivial(&t.toks[k])).collect();
  for (i, &a) in sig.iter().enumerate() {
    let b = sig.get(i + 1).copied();
    let end = b.unwrap_or(t.toks.len());
    for k in a + 1..end {
      cx.count("trivia tokens placed", 1);
      if b.is_some_and(|b| item[b] == item[a]) || described.is_empty() {
        continue;
      }
      let excuse = item[a] < t.nodes.len() && excused[item[a]] && item[k] == item[a];
      need!(
        t.holder[k] == Some(top) || excuse,
        "trivia token {k} lies between top-level items or after the last but is inside a node of kind {}",
        t.holder[k].map_or(0, |h| t.nodes[h].kind)
      );
    }
  }
}

pub fn trivia(cx: &mut Ctx) {
  with(cx, false, |_| {}, |cx, run, toks, cuts| {
    let evs = finish(cx, run.r);
    judge_trivia(cx, &run.m, &evs);
    let inner = toks.iter().skip_while(|t| t.kind.0 < TRIVIA).any(|t| t.kind.0 < TRIVIA);
    if inner && run.m.nodes.iter().filter(|n| n.toks > 0).count() > 1 {
      cx.nontrivial(fingerprint(&run.m, cuts));
    }
  });
}

// C12

pub fn judge_backtrack(cx: &mut Ctx, m: &Model, evs: &[Ev], toks: &[Token<'_, K>]) {
  let mut fresh = Real::new(toks);
  replay(&mut fresh, &m.ops);
  let want = finish(cx, fresh);
  if evs != want {
    let at = evs.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(evs.len().min(want.len()));
    vio!(
      "call {at} to the sink is {:?} (of {}), but {:?} (of {}) without the failed attempts",
      evs.get(at),
      evs.len(),
      want.get(at),
      want.len()
    );
  }
}

pub fn backtrack(cx: &mut Ctx) {
  with(
    cx,
    true,
    |run| {
      run.judge_spec = true;
      run.judge_after = true;
    },
    |cx, run, toks, cuts| {
      let evs = finish(cx, run.r);
      judge_backtrack(cx, &run.m, &evs, toks);
      if run.failed_attempts > 0 {
        cx.nontrivial(fingerprint(&run.m, cuts));
      }
    },
  );
}

// C13

pub fn judge_errors(m: &Model, evs: &[Ev]) {
  let errs: Vec<&Er> = evs.iter().filter_map(|e| if let Ev::Error(e) = e { Some(e) } else { None }).collect();
  let want: Vec<&Er> = m.errors.iter().map(|e| &e.0).collect();
  same!(errs, want, "the errors recorded");
}

/// The same calls on the same significant tokens with other trivia.
pub fn other_trivia(cx: &mut Ctx, m: &Model, toks: &[Token<'_, K>], layout: &mut dyn FnMut(&mut Ctx) -> u16) {
  let mut other: Vec<Token<'_, K>> = Vec::new();
  let mut sig = Vec::new();
  for t in toks.iter().filter(|t| t.kind.0 >= TRIVIA) {
    for _ in 0..layout(cx) {
      other.push(Token { kind: K(0), text: " " });
    }
    sig.push(id(t));
    other.push(*t);
  }
  for _ in 0..layout(cx) {
    other.push(Token { kind: K(1), text: "#" });
  }
  let mut r = Real::new(&other);
  let mut used = 0;
  for op in &m.ops {
    let n = cx.idx(3);
    same!(r.p.peek_n(n).map(|t| id(&t)), sig.get(used + n).copied(), "with other trivia, peek_n({n}) after {used} tokens");
    let got = r.apply(op);
    if let Op::Bump = op {
      same!(got, sig.get(used).copied(), "with other trivia, token {used} consumed");
      used += 1;
    }
    if let Op::Exit(_, node) = op {
      same!(r.done[node].is_empty(), m.nodes[*node].toks == 0, "with other trivia, whether construct {node} is empty");
    }
  }
}

pub fn look(cx: &mut Ctx) {
  with(cx, true, |run| run.judge_look = true, |cx, run, toks, cuts| {
    let Run { r, m, .. } = run;
    let before = cx.seen("lookahead queries");
    let evs = finish(cx, r);
    judge_errors(&m, &evs);
    other_trivia(cx, &m, toks, &mut |cx| if cx.chance(1, 2) { 0 } else { cx.below(3) as u16 });
    if before > 0 && m.consumed > 0 && cuts.iter().any(|c| c.0 < TRIVIA) {
      cx.nontrivial(fingerprint(&m, cuts));
    }
  });
}

// C14

pub fn judge_rowan(cx: &mut Ctx, m: &Model, r: Real, toks: &[Token<'_, K>]) {
  let mut sink = RowanSink::<K, Er>::default();
  r.p.finish(&mut sink);
  let (node, errors) = sink.finish::<Lang>();
  let text: String = toks.iter().map(|t| t.text).collect();
  same!(node.text().to_string(), text, "the text of the tree");
  let got: Vec<(u16, String)> = node
    .descendants_with_tokens()
    .filter_map(rowan::NodeOrToken::into_token)
    .map(|t| (t.kind().0, t.text().to_owned()))
    .collect();
  let want: Vec<(u16, String)> = toks.iter().map(|t| (t.kind.0, t.text.to_owned())).collect();
  same!(got, want, "kinds and texts of the tree's tokens");
  let mut places = Vec::new();
  let mut at = 0u32;
  for t in toks {
    let end = at + t.text.len() as u32;
    places.push((at, end, t.kind.0));
    at = end;
  }
  let sig: Vec<(u32, u32, u16)> = places.iter().filter(|p| p.2 >= TRIVIA).copied().collect();
  let want: Vec<_> = m
    .errors
    .iter()
    .map(|(e, used)| match sig.get(*used).or(places.last()) {
      Some(&(a, z, k)) => (e.clone(), (a, z), Some(K(k))),
      None => (e.clone(), (0, 0), None),
    })
    .collect();
  let got: Vec<_> =
    errors.into_iter().map(|e| (e.inner, (u32::from(e.range.start()), u32::from(e.range.end())), e.kind)).collect();
  if got != want {
    let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    vio!("error {at} of {}: got {:?} (of {}), expected {:?}", want.len(), got.get(at), got.len(), want.get(at));
  }
  cx.count("trees built", 1);
  cx.count("errors located", want.len() as u64);
}

pub fn rowan_tree(cx: &mut Ctx) {
  with(cx, false, |_| {}, |cx, run, toks, cuts| {
    judge_rowan(cx, &run.m, run.r, toks);
    if !run.m.errors.is_empty() && cuts.iter().any(|c| c.0 < TRIVIA) {
      cx.nontrivial(fingerprint(&run.m, cuts));
    }
  });
}

// C36

struct Mine;

pub fn bomb(cx: &mut Ctx) {
  let n = cx.size(6) as usize;
  let (text, cuts) = source(cx, n);
  let toks = tokens(&text, &cuts);
  let mut run = Run::new(&toks);
  // a prefix that is fully closed, all of whose markers were consumed
  random(cx, &mut run, true);
  let Run { mut r, m, .. } = run;
  let root = m.root().expect("a root");
  let precede = cx.chance(1, 2);
  let en = if precede { r.p.precede(r.done[&root]) } else { r.p.enter() };
  for _ in 0..cx.below(3) {
    if r.p.peek().is_some() && cx.chance(1, 2) {
      r.p.bump();
    } else {
      let inner = r.p.enter();
      if cx.chance(1, 2) {
        r.p.exit(inner, K(NODE));
      } else {
        r.p.abandon(inner);
      }
    }
  }
  let what = if precede { "a construct started by preceding another" } else { "a started construct" };
  if m.nodes.len() > 1 {
    cx.nontrivial(fingerprint(&m, &cuts) ^ u64::from(precede));
  }
  match cx.below(5) {
    0 => {
      need!(catch(|| drop(en)).is_err(), "{what} was dropped without panicking");
      cx.count("markers forgotten", 1);
    }
    1 => {
      // the parser goes first
      drop(r);
      need!(catch(|| drop(en)).is_err(), "{what} was dropped after its parser without panicking");
      cx.count("markers forgotten", 1);
    }
    2 => {
      let got = catch(|| {
        let _held = en;
        if r.p.peek().is_some() {
          r.p.bump();
        }
      });
      need!(got.is_err(), "{what} went out of scope without panicking");
      cx.count("markers forgotten", 1);
    }
    3 => {
      let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _held = en;
        let _second = r.p.enter();
        std::panic::panic_any(Mine);
      }));
      need!(
        got.is_err_and(|e| e.is::<Mine>()),
        "{what} that was dropped while another panic unwound replaced that panic"
      );
      cx.count("markers dropped while unwinding", 1);
    }
    _ => {
      // consumed: nothing may happen
      let abandon = cx.chance(1, 2);
      let got = catch(|| {
        if abandon {
          r.p.abandon(en);
        } else {
          let _ = r.p.exit(en, K(NODE));
        }
      });
      if let Err(e) = got {
        vio!("{what} that was {} made the program panic: {e}", if abandon { "abandoned" } else { "finished" });
      }
      cx.count("markers consumed", 1);
    }
  }
}

/// A construct that is forgotten late, deep inside others, or as one of many.
pub fn bomb_fixed(cx: &mut Ctx) {
  let mut no = 0;
  for n in [1usize, 2, 10, 100, 255, 256, 257, 1000, 4097, 5100, 20_000, 66_000, 140_000] {
    for form in 0..7 {
      for precede in [false, true] {
        for way in 0..3 {
          no += 1;
          if !cx.mine(no, true) || (n > 30_000 && way != form % 3) {
            continue;
          }
          cx.at(|| format!("a construct {} after {n} things of form {form}, treated in way {way}", if precede { "preceding another, started" } else { "started" }));
          let text = "a".repeat(n + 2);
          let cuts: Vec<(u16, usize)> = (0..n + 2).map(|i| (if form == 6 && i % 2 == 1 { 0 } else { TRIVIA }, 1)).collect();
          let toks = tokens(&text, &cuts);
          let mut r = crate::drive::Real::new(&toks);
          let p = &mut r.p;
          let outer = p.enter();
          let first = p.enter();
          p.bump();
          let mut done = p.exit(first, K(NODE));
          let mut held = Vec::new();
          for i in 0..n {
            match form {
              0 => {
                let en = p.enter();
                done = p.exit(en, K(NODE));
              }
              1 => {
                let en = p.enter();
                p.abandon(en);
              }
              2 => p.error(crate::lang::Er::Custom(i as u64)),
              3 => held.push(p.enter()),
              4 => {
                let s = p.save();
                let en = p.enter();
                p.error(crate::lang::Er::Custom(1));
                p.abandon(en);
                let _ = p.ok_since(s);
              }
              5 => {
                let en = p.precede(done);
                done = p.exit(en, K(NODE));
              }
              _ => {
                if p.peek().is_some() {
                  p.bump();
                }
              }
            }
          }
          // a node that is closed and directly within what is open
          if precede && form == 3 {
            let en = p.enter();
            done = p.exit(en, K(NODE));
          }
          let en = if precede { p.precede(done) } else { p.enter() };
          match way {
            0 => {
              need!(catch(|| drop(en)).is_err(), "it was dropped without panicking");
              cx.count("markers forgotten", 1);
            }
            1 => {
              p.exit(en, K(NODE));
              cx.count("markers consumed", 1);
            }
            _ => {
              let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let _held = en;
                std::panic::panic_any(Mine);
              }));
              need!(got.is_err_and(|e| e.is::<Mine>()), "it was dropped while another panic unwound, and replaced that panic");
              cx.count("markers dropped while unwinding", 1);
            }
          }
          if way == 0 {
            // all the others that are still open
            for (i, en) in held.into_iter().enumerate() {
              need!(catch(|| drop(en)).is_err(), "number {i} of {n} open ones was dropped without panicking");
            }
            need!(catch(|| drop(outer)).is_err(), "the outermost was dropped without panicking");
          } else {
            while let Some(en) = held.pop() {
              p.abandon(en);
            }
            p.abandon(outer);
          }
        }
      }
    }
  }
}
