//! C10: the dataflow engine computes the least solution, on every small control-flow graph.
use std::rc::Rc;

use flowistry::mir::engine::iterate_to_fixpoint;
use rustc_index::bit_set::DenseBitSet;
use rustc_index::IndexVec;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, TyCtxt};
use rustc_mir_dataflow::{Analysis, JoinSemiLattice};
use rustc_utils::mir::location_or_arg::{index::LocationOrArgDomain, LocationOrArg};

use crate::checks::Viol;

/// What an instruction does to two variables, each described by a set of instructions.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op { W0, W1, C01, C10 }
const OPS: [Op; 4] = [Op::W0, Op::W1, Op::C01, Op::C10];

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Two(DenseBitSet<usize>, DenseBitSet<usize>, bool);
impl JoinSemiLattice for Two {
  fn join(&mut self, o: &Self) -> bool {
    let a = self.0.union(&o.0);
    let b = self.1.union(&o.1);
    let c = o.2 && !self.2;
    self.2 |= o.2;
    a || b || c
  }
}

fn step(st: &mut Two, op: Op, me: usize) {
  match op {
    Op::W0 => { st.0.clear(); st.0.insert(me); }
    Op::W1 => { st.1.clear(); st.1.insert(me); }
    Op::C01 => { st.0 = st.1.clone(); st.0.insert(me); }
    Op::C10 => { st.1 = st.0.clone(); st.1.insert(me); }
  }
}

/// `term[b]` = successors; `ops[b]` = the block's instructions.
#[derive(Clone, Debug)]
pub struct Cfg { pub term: Vec<Vec<usize>>, pub ops: Vec<Vec<Op>> }

struct A<'a> { cfg: &'a Cfg, nloc: usize, base: Vec<usize>, calls: u64 }
impl A<'_> {
  fn id(&self, l: Location) -> usize { self.base[l.block.as_usize()] + l.statement_index }
}
impl<'tcx> Analysis<'tcx> for A<'_> {
  type Domain = Two;
  const NAME: &'static str = "two";
  fn bottom_value(&self, _: &Body<'tcx>) -> Two { Two(DenseBitSet::new_empty(self.nloc), DenseBitSet::new_empty(self.nloc), false) }
  fn initialize_start_block(&self, _: &Body<'tcx>, st: &mut Two) { st.2 = true; }
  fn apply_primary_statement_effect(&mut self, st: &mut Two, _: &Statement<'tcx>, l: Location) {
    self.calls += 1;
    if st.2 { step(st, self.cfg.ops[l.block.as_usize()][l.statement_index], self.id(l)); }
  }
  fn apply_primary_terminator_effect<'m>(&mut self, _: &mut Two, t: &'m Terminator<'tcx>, _: Location) -> TerminatorEdges<'m, 'tcx> {
    self.calls += 1;
    t.edges()
  }
}

fn body<'tcx>(tcx: TyCtxt<'tcx>, cfg: &Cfg) -> Body<'tcx> {
  let si = SourceInfo { span: rustc_span::DUMMY_SP, scope: SourceScope::from_usize(0) };
  let mut bbs: IndexVec<BasicBlock, BasicBlockData<'tcx>> = IndexVec::new();
  for (t, ops) in cfg.term.iter().zip(&cfg.ops) {
    let bb = BasicBlock::from_usize;
    let kind = match t.as_slice() {
      [] => TerminatorKind::Return,
      [a] => TerminatorKind::Goto { target: bb(*a) },
      [a, b] => TerminatorKind::SwitchInt {
        discr: Operand::Constant(Box::new(ConstOperand { span: si.span, user_ty: None, const_: Const::from_bool(tcx, true) })),
        targets: SwitchTargets::static_if(0, bb(*a), bb(*b)),
      },
      _ => unreachable!(),
    };
    let mut d = BasicBlockData::new(Some(Terminator { source_info: si, kind }), false);
    for _ in ops { d.statements.push(Statement::new(si, StatementKind::Nop)); }
    bbs.push(d);
  }
  let _ = ty::EarlyBinder::bind(());
  Body::new_cfg_only(bbs)
}

fn locations(cfg: &Cfg) -> Vec<Location> {
  cfg.ops.iter().enumerate().flat_map(|(b, ops)| (0 ..= ops.len()).map(move |i| Location { block: BasicBlock::from_usize(b), statement_index: i })).collect()
}

/// Textbook round-robin solution; returns the state after every location, None = unreachable.
fn classical(cfg: &Cfg, base: &[usize], nloc: usize) -> Vec<Option<Two>> {
  let n = cfg.term.len();
  let mut input: Vec<Option<Two>> = vec![None; n];
  input[0] = Some(Two(DenseBitSet::new_empty(nloc), DenseBitSet::new_empty(nloc), true));
  loop {
    let mut changed = false;
    for b in 0 .. n {
      let Some(mut st) = input[b].clone() else { continue };
      for (i, op) in cfg.ops[b].iter().enumerate() { step(&mut st, *op, base[b] + i); }
      for s in &cfg.term[b] {
        match &mut input[*s] {
          Some(x) => changed |= x.join(&st),
          x => { *x = Some(st.clone()); changed = true; }
        }
      }
    }
    if !changed { break; }
  }
  let mut out = vec![None; nloc];
  for b in 0 .. n {
    let Some(mut st) = input[b].clone() else { continue };
    for i in 0 ..= cfg.ops[b].len() {
      if i < cfg.ops[b].len() { step(&mut st, cfg.ops[b][i], base[b] + i); }
      out[base[b] + i] = Some(st.clone());
    }
  }
  out
}

pub fn check<'tcx>(tcx: TyCtxt<'tcx>, cfg: &Cfg, counts: &mut dyn FnMut(&str, u64)) -> Option<Viol> {
  let b = body(tcx, cfg);
  let locs = locations(cfg);
  let mut base = vec![];
  let mut k = 0;
  for o in &cfg.ops { base.push(k); k += o.len() + 1; }
  let dom = Rc::new(LocationOrArgDomain::from_iter(locs.iter().map(|l| LocationOrArg::Location(*l))));
  let a = A { cfg, nloc: k, base: base.clone(), calls: 0 };
  let want = classical(cfg, &base, k);
  let got = iterate_to_fixpoint(tcx, &b, dom, a);
  counts("transitions", got.analysis.calls);
  let mut nontrivial = false;
  for (i, l) in locs.iter().enumerate() {
    counts("states", 1);
    let Some(w) = &want[i] else { continue };
    counts("comparisons", 1);
    nontrivial |= w.0.count() + w.1.count() > 2;
    let g = got.state_at(*l);
    if g != w {
      return Some(Viol { key: format!("{l:?}"), detail: format!("at {l:?} of {cfg:?} the engine computes {g:?}, the least solution is {w:?}") });
    }
  }
  counts("nontrivial", nontrivial as u64);
  None
}

/// Every graph of `n` blocks with at most `len` instructions per block, sharded.
pub fn explore(n: usize, len: usize, shard: usize, shards: usize, mut f: impl FnMut(&Cfg)) {
  let mut terms: Vec<Vec<usize>> = vec![vec![]];
  for a in 0 .. n { terms.push(vec![a]); }
  for a in 0 .. n { for b in a + 1 .. n { terms.push(vec![a, b]); } }
  let mut bodies: Vec<Vec<Op>> = vec![vec![]];
  let mut cur: Vec<Vec<Op>> = vec![vec![]];
  for _ in 0 .. len {
    cur = cur.iter().flat_map(|v| OPS.iter().map(move |o| { let mut v = v.clone(); v.push(*o); v })).collect();
    bodies.extend(cur.iter().cloned());
  }
  let per = terms.len() * bodies.len();
  let total = per.pow(n as u32);
  for idx in (shard .. total).step_by(shards) {
    let mut x = idx;
    let mut cfg = Cfg { term: vec![], ops: vec![] };
    for _ in 0 .. n {
      let y = x % per;
      x /= per;
      cfg.term.push(terms[y % terms.len()].clone());
      cfg.ops.push(bodies[y / terms.len()].clone());
    }
    // every block but the entry must be reachable: smaller graphs are enumerated on their own.
    // Also the front end never emits an instruction that jumps to itself.
    let mut seen = vec![false; n];
    let mut st = vec![0];
    seen[0] = true;
    while let Some(b) = st.pop() { for s in &cfg.term[b] { if !seen[*s] { seen[*s] = true; st.push(*s); } } }
    if seen.iter().any(|s| !s) { continue; }
    if cfg.term.iter().enumerate().any(|(b, t)| t.contains(&b) && cfg.ops[b].is_empty()) { continue; }
    f(&cfg);
  }
}
