//! What a sink receives, and the readings of it that the properties are about.

use crate::lang::{Er, Id, K, id};
use crate::model::{Item, Model};
use event_parse::Sink;
use token::Token;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Ev {
  Enter(u16),
  Tok(Id),
  Exit,
  Error(Er),
}

#[derive(Debug, Default)]
pub struct Recorder(pub Vec<Ev>);

impl Sink<K, Er> for Recorder {
  fn enter(&mut self, kind: K) {
    self.0.push(Ev::Enter(kind.0));
  }
  fn token(&mut self, token: Token<'_, K>) {
    self.0.push(Ev::Tok(id(&token)));
  }
  fn exit(&mut self) {
    self.0.push(Ev::Exit);
  }
  fn error(&mut self, error: Er) {
    self.0.push(Ev::Error(error));
  }
}

#[derive(Debug, Clone)]
pub struct TNode {
  pub kind: u16,
  /// `Err(n)` is the `n`th token of the trace, `Ok(n)` a node.
  pub children: Vec<Result<usize, usize>>,
  pub parent: Option<usize>,
}

/// The tree that a trace describes, and its tokens in order.
#[derive(Debug, Default)]
pub struct Tree {
  pub nodes: Vec<TNode>,
  pub roots: Vec<usize>,
  pub toks: Vec<Id>,
  /// The node that directly holds each token.
  pub holder: Vec<Option<usize>>,
  /// What is wrong with the shape, if anything.
  pub broken: Option<String>,
}

pub fn tree(evs: &[Ev]) -> Tree {
  let mut t = Tree::default();
  let mut stack = Vec::<usize>::new();
  for (i, ev) in evs.iter().enumerate() {
    match ev {
      Ev::Enter(k) => {
        let n = t.nodes.len();
        t.nodes.push(TNode { kind: *k, children: Vec::new(), parent: stack.last().copied() });
        match stack.last() {
          Some(&p) => t.nodes[p].children.push(Ok(n)),
          None => t.roots.push(n),
        }
        stack.push(n);
      }
      Ev::Tok(d) => {
        let n = t.toks.len();
        t.toks.push(*d);
        t.holder.push(stack.last().copied());
        match stack.last() {
          Some(&p) => t.nodes[p].children.push(Err(n)),
          None => {
            t.broken.get_or_insert_with(|| format!("call {i} delivers a token outside the root"));
          }
        }
      }
      Ev::Exit => {
        if stack.pop().is_none() {
          t.broken.get_or_insert_with(|| format!("call {i} exits without an enter"));
        }
      }
      Ev::Error(_) => {}
    }
  }
  if !stack.is_empty() {
    t.broken.get_or_insert_with(|| format!("{} nodes are entered but never exited", stack.len()));
  }
  if t.roots.len() != 1 {
    t.broken.get_or_insert_with(|| format!("there are {} top-level nodes", t.roots.len()));
  }
  t
}

/// A tree without trivia and nodes that have no other token, flattened: (kind, open) or token number.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Flat {
  Open(u16),
  Tok(usize),
  Close,
}

fn trivia(d: Id) -> bool {
  d.0 < crate::lang::TRIVIA
}

impl Tree {
  /// Numbers of non-trivia tokens inside each node.
  pub fn weights(&self) -> Vec<usize> {
    let mut w = vec![0; self.nodes.len()];
    // children have larger numbers than their parents
    for i in (0..self.nodes.len()).rev() {
      for c in &self.nodes[i].children {
        w[i] += match *c {
          Ok(n) => w[n],
          Err(t) => usize::from(!trivia(self.toks[t])),
        };
      }
    }
    w
  }

  pub fn flat(&self) -> Vec<Flat> {
    let w = self.weights();
    let mut out = Vec::new();
    let mut seen = 0;
    // (node, next child)
    let mut stack: Vec<(usize, usize)> = Vec::new();
    for &r in self.roots.iter() {
      out.push(Flat::Open(self.nodes[r].kind));
      stack.push((r, 0));
      while let Some((n, i)) = stack.pop() {
        match self.nodes[n].children.get(i) {
          None => out.push(Flat::Close),
          Some(&c) => {
            stack.push((n, i + 1));
            match c {
              Ok(m) if w[m] > 0 => {
                out.push(Flat::Open(self.nodes[m].kind));
                stack.push((m, 0));
              }
              Err(t) if !trivia(self.toks[t]) => {
                out.push(Flat::Tok(seen));
                seen += 1;
              }
              _ => {}
            }
          }
        }
      }
    }
    out
  }

  /// Nodes with tokens, in order of entering, the root first.
  pub fn solid(&self) -> Vec<usize> {
    let w = self.weights();
    (0..self.nodes.len()).filter(|&n| w[n] > 0).collect()
  }

  /// The first and last token inside each node.
  pub fn ends(&self) -> Vec<Option<(usize, usize)>> {
    let mut e: Vec<Option<(usize, usize)>> = vec![None; self.nodes.len()];
    for i in (0..self.nodes.len()).rev() {
      for c in &self.nodes[i].children {
        let x = match *c {
          Ok(n) => e[n],
          Err(t) => Some((t, t)),
        };
        e[i] = match (e[i], x) {
          (Some(a), Some(b)) => Some((a.0.min(b.0), a.1.max(b.1))),
          (a, b) => a.or(b),
        };
      }
    }
    e
  }
}

/// The same reading of the model, and the solid nodes in order of entering.
pub fn flat_model(m: &Model, root: usize) -> (Vec<Flat>, Vec<usize>) {
  let mut out = vec![Flat::Open(m.nodes[root].kind)];
  let mut solid = Vec::new();
  if m.nodes[root].toks > 0 {
    solid.push(root);
  }
  let mut stack = vec![(root, 0)];
  while let Some((n, i)) = stack.pop() {
    match m.nodes[n].children.get(i) {
      None => out.push(Flat::Close),
      Some(&c) => {
        stack.push((n, i + 1));
        match c {
          Item::Node(x) if m.nodes[x].toks > 0 => {
            out.push(Flat::Open(m.nodes[x].kind));
            solid.push(x);
            stack.push((x, 0));
          }
          Item::Tok(t) => out.push(Flat::Tok(t)),
          Item::Node(_) => {}
        }
      }
    }
  }
  (out, solid)
}

/// Whether an empty construct was described inside each node after its last token.
pub fn trailing_empty(m: &Model) -> Vec<bool> {
  let mut out = vec![false; m.nodes.len()];
  // children have smaller numbers than their parents
  for n in 0..m.nodes.len() {
    for &c in m.nodes[n].children.iter().rev() {
      match c {
        Item::Tok(_) => break,
        Item::Node(x) => {
          if m.nodes[x].toks == 0 {
            out[n] = true;
          } else {
            out[n] |= out[x];
            break;
          }
        }
      }
    }
  }
  out
}
