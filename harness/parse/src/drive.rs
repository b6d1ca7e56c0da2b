//! Random parses: every call is made on the real parser and on the model.

use crate::lang::{Er, Id, K, NODE, TRIVIA, id};
use crate::model::{Model, Op, Snap};
use event_parse::{Entered, Exited, Parser, Save};
use std::collections::BTreeMap;
use token::Token;
use vmon::{Ctx, same, tr};

pub type Toks<'a> = Vec<Token<'a, K>>;

/// A source text and how it is cut into tokens.
pub fn source(cx: &mut Ctx, sig: usize) -> (String, Vec<(u16, usize)>) {
  let density = *cx.pick(&[0u64, 2, 5, 5, 9]);
  let kinds = 1 + cx.below(5);
  let mut text = String::new();
  let mut cuts = Vec::new();
  let mut push = |cx: &mut Ctx, kind: u16| {
    let piece = match cx.below(8) {
      0 => "é".to_owned(),
      1 => "😀\n".to_owned(),
      2 => "if".to_owned(),
      3 if cx.chance(1, 3) => String::new(),
      5 if cx.chance(1, 3000) => "é".repeat(cx.near_int(40_000) as usize),
      4 => "abcdefghij".to_owned(),
      _ => ((b'a' + cx.below(26) as u8) as char).to_string(),
    };
    cuts.push((kind, piece.len()));
    text.push_str(&piece);
  };
  let trivia = |cx: &mut Ctx, push: &mut dyn FnMut(&mut Ctx, u16)| {
    if density > 0 && cx.chance(1, 4000) {
      for _ in 0..cx.size(700) {
        push(cx, 1);
      }
    }
    while cx.chance(density, 10) {
      let k = cx.below(TRIVIA.into()) as u16;
      push(cx, k);
      if cx.chance(1, 3) {
        break;
      }
    }
  };
  for _ in 0..sig {
    trivia(cx, &mut push);
    let k = TRIVIA + cx.below(kinds) as u16;
    push(cx, k);
  }
  trivia(cx, &mut push);
  (text, cuts)
}

pub fn tokens<'a>(text: &'a str, cuts: &[(u16, usize)]) -> Toks<'a> {
  let mut at = 0;
  cuts
    .iter()
    .map(|&(k, n)| {
      let t = Token { kind: K(k), text: &text[at..at + n] };
      at += n;
      t
    })
    .collect()
}

/// The real parser and its markers.
pub struct Real<'s> {
  pub p: Parser<'s, K, Er>,
  open: Vec<Entered>,
  pub done: BTreeMap<usize, Exited>,
}

impl<'s> Real<'s> {
  pub fn new(toks: &'s [Token<'s, K>]) -> Self {
    Real { p: Parser::new(toks), open: Vec::new(), done: BTreeMap::new() }
  }

  pub fn apply(&mut self, op: &Op) -> Option<Id> {
    match op {
      Op::Enter => self.open.push(self.p.enter()),
      Op::Exit(k, node) => {
        let en = self.open.pop().expect("an open construct");
        let ex = self.p.exit(en, K(*k));
        self.done.insert(*node, ex);
      }
      Op::Abandon => {
        let en = self.open.pop().expect("an open construct");
        self.p.abandon(en);
      }
      Op::Precede(node) => {
        let ex = self.done[node];
        self.open.push(self.p.precede(ex));
      }
      Op::Bump => return Some(id(&self.p.bump())),
      Op::Error(e) => self.p.error(e.clone()),
    }
    None
  }
}

impl Real<'_> {
  /// Gives up on the parse.
  pub fn forget(&mut self) {
    self.open.drain(..).for_each(std::mem::forget);
  }
}

pub fn replay(r: &mut Real, ops: &[Op]) {
  for op in ops {
    r.apply(op);
  }
}

pub struct Run<'s> {
  pub m: Model,
  pub r: Real<'s>,
  pub sig: Vec<Id>,
  /// Whether lookahead answers are being judged.
  pub judge_look: bool,
  /// Whether lookahead after failed attempts is compared with that of a fresh parser.
  pub judge_after: bool,
  toks: &'s [Token<'s, K>],
  /// Whether answers about speculation are being judged.
  pub judge_spec: bool,
  /// Whether to make no choices when constructs must be closed.
  pub plain: bool,
  saves: Vec<(Save, Snap)>,
  next_err: u64,
  pub failed_attempts: u64,
  pub good_attempts: u64,
  pub abandoned_precedes: u64,
}

impl<'s> Run<'s> {
  pub fn new(toks: &'s [Token<'s, K>]) -> Self {
    Run {
      m: Model::new(),
      r: Real::new(toks),
      sig: toks.iter().map(id).filter(|d| d.0 >= TRIVIA).collect(),
      judge_look: false,
      judge_after: false,
      toks,
      judge_spec: false,
      plain: false,
      saves: Vec::new(),
      next_err: 0,
      failed_attempts: 0,
      good_attempts: 0,
      abandoned_precedes: 0,
    }
  }

  fn floor(&self) -> (usize, usize) {
    self.saves.last().map_or((1, 0), |s| (s.1.frames, s.1.nodes))
  }

  pub fn left(&self) -> usize {
    self.sig.len() - self.m.consumed
  }

  /// Asks about the token `n` ahead, in one of the ways there are.
  pub fn look(&mut self, cx: &mut Ctx) {
    let n = match cx.below(6) {
      0..=2 => 0,
      3 => cx.idx(3),
      4 => cx.idx(self.left() + 2),
      _ => cx.size(400) as usize,
    };
    let want = self.sig.get(self.m.consumed + n).copied();
    let kind = match (want, cx.below(3)) {
      (Some(d), 0) => d.0,
      _ => cx.below(u64::from(TRIVIA) + 6) as u16,
    };
    let is = want.is_some_and(|d| d.0 == kind);
    let judge = self.judge_look;
    match cx.below(4) {
      0 if n == 0 => {
        let got = self.r.p.peek().map(|t| id(&t));
        if judge {
          same!(got, want, "peek after {} tokens", self.m.consumed);
        }
      }
      0 | 1 => {
        let got = self.r.p.peek_n(n).map(|t| id(&t));
        if judge {
          same!(got, want, "peek_n({n}) after {} tokens", self.m.consumed);
        }
      }
      2 if n == 0 => {
        let got = self.r.p.at(K(kind));
        if judge {
          same!(got, is, "at({kind}) after {} tokens, current {want:?}", self.m.consumed);
        }
      }
      _ => {
        let got = self.r.p.at_n(n, K(kind));
        if judge {
          same!(got, is, "at_n({n}, {kind}) after {} tokens, that token is {want:?}", self.m.consumed);
        }
      }
    }
    cx.count("lookahead queries", 1);
    tr!(cx, "look {n} ahead");
  }

  pub fn enter(&mut self, cx: &mut Ctx) {
    self.m.enter();
    self.r.apply(&Op::Enter);
    tr!(cx, "enter");
  }

  pub fn can_close(&self) -> bool {
    self.m.frames.len() > self.floor().0
  }

  pub fn exit(&mut self, cx: &mut Ctx, kind: u16) -> usize {
    let node = self.m.exit(kind);
    self.r.apply(&Op::Exit(kind, node));
    tr!(cx, "exit {kind} -> construct {node}");
    if self.judge_look {
      same!(
        self.r.done[&node].is_empty(),
        self.m.nodes[node].toks == 0,
        "whether construct {node} (kind {kind}), which holds {} consumed tokens, is empty",
        self.m.nodes[node].toks
      );
      cx.count("emptiness answers", 1);
    }
    node
  }

  pub fn abandon(&mut self, cx: &mut Ctx) {
    // before the last unclosed precede?
    let mut depth = 0;
    for op in self.m.ops.iter().rev() {
      match op {
        Op::Exit(..) | Op::Abandon => depth += 1,
        Op::Enter | Op::Precede(_) if depth > 0 => depth -= 1,
        Op::Precede(_) => {
          self.abandoned_precedes += 1;
          break;
        }
        Op::Enter => break,
        _ => {}
      }
    }
    self.m.abandon();
    self.r.apply(&Op::Abandon);
    tr!(cx, "abandon");
  }

  pub fn precede(&mut self, cx: &mut Ctx, node: usize) {
    self.m.precede(node);
    self.r.apply(&Op::Precede(node));
    cx.count("precedes", 1);
    tr!(cx, "precede construct {node}");
  }

  pub fn precedable(&self) -> Vec<usize> {
    self.m.precedable(self.floor().1)
  }

  pub fn bump(&mut self, cx: &mut Ctx) {
    let want = self.sig[self.m.consumed];
    self.m.bump();
    let got = self.r.apply(&Op::Bump);
    if self.judge_look {
      same!(got, Some(want), "token number {} consumed", self.m.consumed);
    }
    tr!(cx, "bump");
  }

  pub fn error(&mut self, cx: &mut Ctx) {
    self.next_err += 1;
    let e = Er::Custom(self.next_err);
    self.m.error(e.clone());
    self.r.apply(&Op::Error(e));
    tr!(cx, "error {}", self.next_err);
  }

  pub fn eat(&mut self, cx: &mut Ctx) {
    let cur = self.sig.get(self.m.consumed).copied();
    let kind = match (cur, cx.below(3)) {
      (Some(d), 0 | 1) => d.0,
      _ => cx.below(u64::from(TRIVIA) + 6) as u16,
    };
    let got = self.r.p.eat(K(kind)).map(|t| id(&t));
    let want = cur.filter(|d| d.0 == kind);
    if want.is_some() {
      self.m.bump();
    } else {
      self.m.error(Er::Expected(K(kind)));
    }
    if self.judge_look {
      same!(got, want, "eat({kind}) with current token {cur:?}");
    }
    cx.count("eats", 1);
    tr!(cx, "eat {kind} (current {cur:?})");
  }

  pub fn save(&mut self, cx: &mut Ctx) {
    let s = (self.r.p.save(), self.m.save());
    self.saves.push(s);
    tr!(cx, "save ({})", self.saves.len());
  }

  pub fn depth(&self) -> usize {
    self.saves.len()
  }

  fn compare_with_fresh(&mut self, cx: &mut Ctx) {
    let mut fresh = Real::new(self.toks);
    replay(&mut fresh, &self.m.ops);
    for n in [0, 1, cx.idx(self.left() + 2)] {
      same!(
        self.r.p.peek_n(n).map(|t| id(&t)),
        fresh.p.peek_n(n).map(|t| id(&t)),
        "peek_n({n}) after a failed attempt, compared with never having made it"
      );
    }
    cx.count("states compared after a failed attempt", 1);
    // these are not going to be finished
    fresh.forget();
  }

  /// Settles the innermost save.
  pub fn settle(&mut self, cx: &mut Ctx) {
    let Some((_, snap)) = self.saves.last() else { return };
    let failed = self.m.failed_since(snap);
    if failed {
      // nothing started since the save may stay open
      while self.can_close() {
        if !self.plain && cx.chance(1, 4) {
          self.abandon(cx);
        } else {
          let k = NODE + if self.plain { 0 } else { cx.below(5) as u16 };
          self.exit(cx, k);
        }
      }
    }
    let (save, snap) = self.saves.pop().expect("a save");
    let ok = self.r.p.ok_since(save);
    tr!(cx, "ok_since -> {ok}, errors since: {failed}");
    if self.judge_spec {
      same!(ok, !failed, "whether the attempt went well ({} errors since the save)", self.m.errors.len() - snap.errors);
    }
    if failed {
      for n in snap.nodes..self.m.nodes.len() {
        self.r.done.remove(&n);
      }
      self.m.restore(snap);
      self.failed_attempts += 1;
      cx.count("failed attempts", 1);
      if self.judge_after && cx.chance(1, 3) {
        self.compare_with_fresh(cx);
      }
    } else {
      self.good_attempts += 1;
      cx.count("successful attempts", 1);
    }
  }
}

/// A random parse of all (or, if told so, some) of the tokens that ends with one root.
pub fn random(cx: &mut Ctx, run: &mut Run, partial: bool) {
  let style = cx.below(4);
  if style == 3 {
    pratt(cx, run);
    close(cx, run, partial);
    return;
  }
  let wrap_later = cx.chance(1, 5);
  if !wrap_later {
    run.enter(cx);
  }
  let base = run.m.frames.len();
  let mut w = [3u64, 3, 1, 2, 5, 1, 1, 1, 1, 3];
  for x in &mut w {
    if cx.chance(1, 3) {
      *x = cx.below(8);
    }
  }
  if style == 0 {
    w[6] = 0;
  }
  let total: u64 = w.iter().sum::<u64>().max(1);
  let steps = 2 + cx.size(120) + 2 * run.sig.len() as u64;
  for _ in 0..steps {
    let mut r = cx.below(total);
    let mut op = 0;
    while op < 9 && r >= w[op] {
      r -= w[op];
      op += 1;
    }
    let closable = run.can_close() && run.m.frames.len() > base;
    match op {
      0 => run.enter(cx),
      1 if closable => {
        let k = NODE + cx.below(6) as u16;
        run.exit(cx, k);
      }
      2 if closable && run.m.frames.len() > 2 => run.abandon(cx),
      3 if run.m.frames.len() >= base => {
        let ns = run.precedable();
        // the outside may only be wrapped whole
        if let Some(&n) = if cx.chance(2, 3) { ns.last() } else { ns.first() } {
          run.precede(cx, n);
          if cx.chance(1, 3) && run.can_close() {
            run.abandon(cx);
            if cx.chance(1, 2) {
              run.precede(cx, n);
            }
          }
        }
      }
      4 if run.left() > 0 && run.m.frames.len() > 1 => run.bump(cx),
      5 => run.error(cx),
      6 => {
        if run.depth() < 4 {
          run.save(cx);
        }
      }
      7 => run.settle(cx),
      8 if run.m.frames.len() > 1 => run.eat(cx),
      _ => run.look(cx),
    }
    if run.m.nodes.len() > 400 {
      break;
    }
  }
  close(cx, run, partial);
}

/// Expressions with operators, the use the interface was made for.
fn pratt(cx: &mut Ctx, run: &mut Run) {
  run.enter(cx);
  let items = 1 + cx.below(4);
  for _ in 0..items {
    let depth = cx.below(6);
    expr(cx, run, depth);
    if cx.chance(1, 3) {
      run.look(cx);
    }
    if cx.chance(1, 4) && run.left() > 0 {
      run.bump(cx);
    }
  }
}

fn expr(cx: &mut Ctx, run: &mut Run, depth: u64) -> Option<usize> {
  if depth > 0 && cx.chance(1, 5) {
    // speculate
    run.save(cx);
    let at = run.depth();
    expr(cx, run, depth - 1);
    if cx.chance(1, 2) {
      run.error(cx);
    }
    if run.depth() == at {
      run.settle(cx);
    }
    return None;
  }
  run.enter(cx);
  run.look(cx);
  if run.left() == 0 || cx.chance(1, 6) {
    if cx.chance(1, 2) {
      run.error(cx);
    }
    run.abandon(cx);
    return None;
  }
  if cx.chance(1, 5) {
    run.eat(cx);
  } else {
    run.bump(cx);
  }
  let k = NODE + cx.below(4) as u16;
  let mut ex = run.exit(cx, k);
  while depth > 0 && cx.chance(2, 3) {
    run.look(cx);
    run.precede(cx, ex);
    if run.left() == 0 || cx.chance(1, 4) {
      run.abandon(cx);
      if cx.chance(1, 2) {
        return Some(ex);
      }
    } else {
      run.bump(cx);
      expr(cx, run, depth - 1);
      let k = NODE + 4 + cx.below(3) as u16;
      ex = run.exit(cx, k);
    }
  }
  Some(ex)
}

/// Brings the parse to a proper end: one root, and all tokens consumed unless `partial`.
fn close(cx: &mut Ctx, run: &mut Run, partial: bool) {
  loop {
    while run.depth() > 0 {
      run.settle(cx);
    }
    while run.m.frames.len() > 2 {
      if cx.chance(1, 6) {
        run.abandon(cx);
      } else {
        let k = NODE + cx.below(6) as u16;
        run.exit(cx, k);
      }
    }
    if run.m.frames.len() == 1 {
      // nothing open: wrap what there is, provided it starts with a construct
      match run.m.frames[0].children.first() {
        None => run.enter(cx),
        Some(crate::model::Item::Node(n)) => {
          let n = *n;
          run.precede(cx, n);
        }
        Some(crate::model::Item::Tok(_)) => unreachable!("no token is consumed outside a construct"),
      }
      continue;
    }
    // exactly one construct is open; is everything inside it?
    if run.m.frames[0].children.is_empty() {
      break;
    }
    let k = NODE + cx.below(6) as u16;
    run.exit(cx, k);
  }
  if !partial {
    let direct = cx.chance(1, 2);
    while run.left() > 0 {
      if !direct && cx.chance(1, 3) {
        run.enter(cx);
        run.bump(cx);
        let k = NODE + cx.below(6) as u16;
        run.exit(cx, k);
      } else {
        run.bump(cx);
      }
    }
  }
  if cx.chance(1, 5) {
    run.look(cx);
  }
  if cx.chance(1, 5) {
    run.error(cx);
  }
  let k = NODE + 10 + cx.below(2) as u16;
  run.exit(cx, k);
}
