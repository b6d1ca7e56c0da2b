//! The reference: what the calls to the parser describe. No trivia exists here; tokens are numbered.

use crate::lang::Er;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Item {
  Tok(usize),
  Node(usize),
}

#[derive(Debug, Clone)]
pub struct Done {
  pub kind: u16,
  pub children: Vec<Item>,
  /// Tokens inside.
  pub toks: usize,
}

#[derive(Debug, Clone)]
pub struct Frame {
  /// The construct this one was started before.
  pub child: Option<usize>,
  pub children: Vec<Item>,
}

/// The calls that shape the parse, enough to repeat it on another parser.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Op {
  Enter,
  Exit(u16, usize),
  Abandon,
  Precede(usize),
  Bump,
  Error(Er),
}

#[derive(Debug, Clone)]
pub struct Snap {
  pub frames: usize,
  tops: Vec<Frame>,
  pub nodes: usize,
  consumed: usize,
  pub errors: usize,
  ops: usize,
}

#[derive(Debug, Default)]
pub struct Model {
  /// The first one is not a construct but what lies around the root.
  pub frames: Vec<Frame>,
  pub nodes: Vec<Done>,
  pub consumed: usize,
  /// Errors with the number of tokens consumed before them.
  pub errors: Vec<(Er, usize)>,
  pub ops: Vec<Op>,
}

impl Model {
  pub fn new() -> Self {
    Model { frames: vec![Frame { child: None, children: Vec::new() }], ..Model::default() }
  }

  pub fn toks(&self, i: Item) -> usize {
    match i {
      Item::Tok(_) => 1,
      Item::Node(n) => self.nodes[n].toks,
    }
  }

  pub fn enter(&mut self) {
    self.frames.push(Frame { child: None, children: Vec::new() });
    self.ops.push(Op::Enter);
  }

  pub fn exit(&mut self, kind: u16) -> usize {
    let f = self.frames.pop().expect("a frame");
    let toks = f.children.iter().map(|&c| self.toks(c)).sum();
    self.nodes.push(Done { kind, children: f.children, toks });
    let id = self.nodes.len() - 1;
    self.frames.last_mut().expect("the outside").children.push(Item::Node(id));
    self.ops.push(Op::Exit(kind, id));
    id
  }

  pub fn abandon(&mut self) {
    let f = self.frames.pop().expect("a frame");
    self.frames.last_mut().expect("the outside").children.extend(f.children);
    self.ops.push(Op::Abandon);
  }

  /// The completed constructs that can be given a parent now, made since the snapshot.
  pub fn precedable(&self, since: usize) -> Vec<usize> {
    let top = self.frames.last().expect("the outside");
    top.children.iter().filter_map(|&c| if let Item::Node(n) = c { Some(n) } else { None }).filter(|&n| n >= since && top.child != Some(n)).collect()
  }

  pub fn precede(&mut self, node: usize) {
    let top = self.frames.last_mut().expect("the outside");
    let at = top.children.iter().position(|&c| c == Item::Node(node)).expect("a child of the top frame");
    let children = top.children.split_off(at);
    self.frames.push(Frame { child: Some(node), children });
    self.ops.push(Op::Precede(node));
  }

  pub fn bump(&mut self) {
    self.frames.last_mut().expect("the outside").children.push(Item::Tok(self.consumed));
    self.consumed += 1;
    self.ops.push(Op::Bump);
  }

  pub fn error(&mut self, e: Er) {
    self.errors.push((e.clone(), self.consumed));
    self.ops.push(Op::Error(e));
  }

  pub fn save(&self) -> Snap {
    Snap {
      frames: self.frames.len(),
      tops: self.frames.clone(),
      nodes: self.nodes.len(),
      consumed: self.consumed,
      errors: self.errors.len(),
      ops: self.ops.len(),
    }
  }

  pub fn failed_since(&self, s: &Snap) -> bool {
    self.errors.len() > s.errors
  }

  pub fn restore(&mut self, s: Snap) {
    self.frames = s.tops;
    self.nodes.truncate(s.nodes);
    self.consumed = s.consumed;
    self.errors.truncate(s.errors);
    self.ops.truncate(s.ops);
  }

  /// The root, once everything is finished.
  pub fn root(&self) -> Option<usize> {
    match (self.frames.len(), self.frames[0].children.as_slice()) {
      (1, &[Item::Node(n)]) => Some(n),
      _ => None,
    }
  }
}
