//! The non-interference oracle: run every input in a small domain, and every single-point
//! perturbation of every such run, and compare what changed with what the analysis says may change.

use std::collections::{HashMap, HashSet};

use rustc_borrowck::consumers::BodyWithBorrowckFacts;
use rustc_middle::mir::visit::{PlaceContext, Visitor};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TyKind};

use crate::interp::*;

/// An input value, pointer targets inline.
#[derive(Clone, Debug, PartialEq)]
pub enum Inp {
  V(Val),
  Ref(Box<Inp>, bool),
  Agg(Vec<Inp>),
  Enum(u32, Vec<Inp>),
}

pub fn materialize<'tcx>(i: &mut Interp<'tcx>, inp: &Inp) -> Val {
  match inp {
    Inp::V(v) => v.clone(),
    Inp::Agg(f) => Val::Agg(f.iter().map(|x| materialize(i, x)).collect()),
    Inp::Enum(d, f) => Val::Enum(*d, f.iter().map(|x| materialize(i, x)).collect()),
    Inp::Ref(x, owned) => {
      let v = materialize(i, x);
      let a = i.alloc(v);
      Val::Ptr(Ptr { alloc: a, path: vec![], owned: *owned, raw: false })
    }
  }
}

fn product(doms: Vec<Vec<Inp>>) -> Vec<Vec<Inp>> {
  let mut out: Vec<Vec<Inp>> = vec![vec![]];
  for d in doms {
    let mut next = Vec::with_capacity(out.len() * d.len());
    for o in &out {
      for x in &d {
        let mut o2 = o.clone();
        o2.push(x.clone());
        next.push(o2);
      }
    }
    out = next;
  }
  out
}

/// All values of `ty` over integers 0..n. None = type outside the modelled universe.
pub fn domain<'tcx>(tcx: TyCtxt<'tcx>, ty: Ty<'tcx>, n: i128, depth: usize) -> Option<Vec<Inp>> {
  if depth > 5 { return None; }
  let d = match ty.kind() {
    TyKind::Bool => vec![Inp::V(Val::Bool(false)), Inp::V(Val::Bool(true))],
    TyKind::Int(_) | TyKind::Uint(_) => (0 .. n).map(|i| Inp::V(Val::Int(i))).collect(),
    TyKind::Tuple(ts) => {
      let ds = ts.iter().map(|t| domain(tcx, t, n, depth + 1)).collect::<Option<Vec<_>>>()?;
      product(ds).into_iter().map(Inp::Agg).collect()
    }
    TyKind::Array(t, len) => {
      let len = len.try_to_target_usize(tcx)?;
      if len > 4 { return None; }
      let d = domain(tcx, *t, n.min(2), depth + 1)?;
      product(vec![d; len as usize]).into_iter().map(Inp::Agg).collect()
    }
    TyKind::Slice(t) => {
      let d = domain(tcx, *t, n.min(2), depth + 1)?;
      product(vec![d; 2]).into_iter().map(Inp::Agg).collect()
    }
    TyKind::Ref(_, t, _) => domain(tcx, *t, n, depth + 1)?.into_iter().map(|x| Inp::Ref(Box::new(x), false)).collect(),
    TyKind::Adt(d, args) if d.is_box() =>
      domain(tcx, args.type_at(0), n, depth + 1)?.into_iter().map(|x| Inp::Ref(Box::new(x), true)).collect(),
    TyKind::Closure(_, args) => {
      let ds = args.as_closure().upvar_tys().iter().map(|t| domain(tcx, t, n, depth + 1)).collect::<Option<Vec<_>>>()?;
      product(ds).into_iter().map(Inp::Agg).collect()
    }
    TyKind::Coroutine(_, args) => {
      let ds = args.as_coroutine().upvar_tys().iter().map(|t| domain(tcx, t, n, depth + 1)).collect::<Option<Vec<_>>>()?;
      product(ds).into_iter().map(Inp::Agg).collect()
    }
    TyKind::Adt(d, args) if d.is_struct() => {
      if !d.did().is_local() { 
        if tcx.def_path_str(d.did()).ends_with("future::ResumeTy") { return Some(vec![Inp::V(Val::Opaque)]); }
        if tcx.def_path_str(d.did()) == "std::vec::Vec" {
          let e = domain(tcx, args.type_at(0), n.min(2), depth + 1)?;
          return Some(product(vec![e; 2]).into_iter().map(|x| Inp::Agg(vec![Inp::Agg(x)])).collect());
        }
        return None;
      }
      let ds = d.non_enum_variant().fields.iter()
        .map(|f| domain(tcx, f.ty(tcx, args), n, depth + 1)).collect::<Option<Vec<_>>>()?;
      product(ds).into_iter().map(Inp::Agg).collect()
    }
    TyKind::Adt(d, args) if d.is_enum() => {
      let mut out = vec![];
      for (i, v) in d.variants().iter_enumerated() {
        let ds = v.fields.iter()
          .map(|f| domain(tcx, f.ty(tcx, args), n, depth + 1)).collect::<Option<Vec<_>>>()?;
        out.extend(product(ds).into_iter().map(|x| Inp::Enum(i.as_u32(), x)));
      }
      out
    }
    _ => return None,
  };
  Some(d)
}

pub fn reaches(body: &Body) -> Vec<HashSet<BasicBlock>> {
  body.basic_blocks.indices().map(|b| {
    let mut seen = HashSet::new();
    let mut st: Vec<_> = body.basic_blocks[b].terminator().successors().collect();
    while let Some(x) = st.pop() {
      if seen.insert(x) { st.extend(body.basic_blocks[x].terminator().successors()); }
    }
    seen
  }).collect()
}

struct Places<'tcx>(Vec<Place<'tcx>>);
impl<'tcx> Visitor<'tcx> for Places<'tcx> {
  fn visit_place(&mut self, p: &Place<'tcx>, _c: PlaceContext, _l: Location) {
    if !self.0.contains(p) { self.0.push(*p); }
  }
}

/// Static facts of a body used by the oracle.
pub struct BodyModel<'tcx> {
  pub tcx: TyCtxt<'tcx>,
  pub facts: &'tcx BodyWithBorrowckFacts<'tcx>,
  pub body: &'tcx Body<'tcx>,
  pub noncyclic: HashSet<Location>,
  pub at: HashMap<Location, Vec<Place<'tcx>>>,
  pub gargs: ty::GenericArgsRef<'tcx>,
}

impl<'tcx> BodyModel<'tcx> {
  pub fn new(tcx: TyCtxt<'tcx>, facts: &'tcx BodyWithBorrowckFacts<'tcx>) -> Self {
    let body = &facts.body;
    let reach = reaches(body);
    let mut noncyclic = HashSet::new();
    let mut at = HashMap::new();
    for (bb, data) in body.basic_blocks.iter_enumerated() {
      if reach[bb.as_usize()].contains(&bb) { continue; }
      for i in 0 ..= data.statements.len() {
        let loc = Location { block: bb, statement_index: i };
        noncyclic.insert(loc);
        let mut p = Places(vec![]);
        if i == data.statements.len() {
          match &data.terminator().kind {
            // at a return, look at every local
            TerminatorKind::Return => p.0 = body.local_decls.indices().map(|l| Place::from(l)).collect(),
            TerminatorKind::Call { .. } | TerminatorKind::SwitchInt { .. } => p.visit_terminator(data.terminator(), loc),
            _ => {}
          }
        } else if let StatementKind::Assign(_) = data.statements[i].kind {
          p.visit_statement(&data.statements[i], loc);
        }
        if !p.0.is_empty() { at.insert(loc, p.0); }
      }
    }
    // a generic function is executed at T = i32, N = 2
    let gargs = ty::GenericArgs::for_item(tcx, tcx.typeck_root_def_id(body.source.def_id()), |p, _| match p.kind {
      ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
      ty::GenericParamDefKind::Type { .. } => tcx.types.i32.into(),
      ty::GenericParamDefKind::Const { .. } => ty::Const::from_target_usize(tcx, 2).into(),
    });
    BodyModel { tcx, facts, body, noncyclic, at, gargs }
  }

  pub fn inputs(&self, cap: usize) -> Option<Vec<Vec<Inp>>> {
    for n in [3, 2] {
      let ds = self.body.args_iter()
        .map(|a| {
          let ty = ty::EarlyBinder::bind(self.tcx.erase_regions(self.body.local_decls[a].ty)).instantiate(self.tcx, self.gargs);
          domain(self.tcx, self.tcx.try_normalize_erasing_regions(ty::TypingEnv::fully_monomorphized(), ty).unwrap_or(ty), n, 0)
        }).collect::<Option<Vec<_>>>()?;
      let size: usize = ds.iter().map(|d| d.len()).product();
      if size <= cap || n == 2 {
        if size > 4096 { return None; }
        let mut p = product(ds);
        if p.len() > cap {
          // deterministic thinning of the *baseline* inputs only; reported in evidence
          let step = p.len().div_ceil(cap);
          p = p.into_iter().step_by(step).collect();
        }
        return Some(p);
      }
    }
    None
  }

  pub fn run(&self, inputs: &[Inp], perturb: Option<Perturb>, record: bool) -> Run<'tcx> {
    let mut it = Interp::new(self.tcx, 600);
    let args: Vec<Val> = inputs.iter().map(|x| materialize(&mut it, x)).collect();
    it.perturb = perturb;
    it.record_steps = record;
    it.entry_len = it.mem.len();
    let mut obs = ObsRec { m: self, seen: HashMap::new() };
    let r = it.run_body(self.body, self.facts, self.gargs, args, &mut obs);
    let seen = obs.seen;
    Run { res: r.map(|_| ()), seen, steps: it.steps, hit: it.perturb_hit, nsteps: it.nsteps, _p: std::marker::PhantomData }
  }
}

pub struct Run<'tcx> {
  pub res: Result<(), Stop>,
  pub seen: HashMap<Location, Vec<Val>>,
  pub steps: Vec<Step>,
  pub hit: bool,
  pub nsteps: u64,
  _p: std::marker::PhantomData<&'tcx ()>,
}

struct ObsRec<'a, 'tcx> {
  m: &'a BodyModel<'tcx>,
  seen: HashMap<Location, Vec<Val>>,
}
impl<'tcx> Observer<'tcx> for ObsRec<'_, 'tcx> {
  fn after(&mut self, i: &mut Interp<'tcx>, f: &Frame<'tcx>, loc: Location) {
    if let Some(ps) = self.m.at.get(&loc) {
      let vs = ps.iter().map(|p| {
        match i.place(f, *p).and_then(|c| i.peek(&c).map(|v| v.clone())) {
          Ok(v) => i.deep(&v, 4),
          Err(_) => Val::Uninit,
        }
      }).collect();
      self.seen.insert(loc, vs);
    }
  }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Source { Arg(Local), Loc(Location) }

#[derive(Clone, Debug)]
pub struct Diff {
  pub source: Source,
  pub obs: Location,
  pub place: usize,
  pub witness: String,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
  pub inputs: u64,
  pub runs: u64,
  pub steps: u64,
  pub perturbs: u64,
  pub discarded: u64,
}

/// Two values differ where both are initialised.
pub fn differs(a: &Val, b: &Val) -> bool {
  match (a, b) {
    (Val::Uninit, _) | (_, Val::Uninit) | (Val::Opaque, _) | (_, Val::Opaque) => false,
    (Val::Agg(x), Val::Agg(y)) => x.len() != y.len() || x.iter().zip(y).any(|(a, b)| differs(a, b)),
    (Val::Enum(i, x), Val::Enum(j, y)) => i != j || x.iter().zip(y).any(|(a, b)| differs(a, b)),
    (a, b) => a != b,
  }
}

/// Enumerate all observable dynamic dependences (source -> (location, place)) of a body.
/// `Err` = body outside the interpreter's universe.
pub fn dynamic_deps<'tcx>(m: &BodyModel<'tcx>, input_cap: usize, stats: &mut Stats, locs: bool) -> Result<Vec<Diff>, String> {
  let inputs = m.inputs(input_cap).ok_or_else(|| "input domain".to_string())?;
  let mut found: HashMap<(Source, Location, usize), Diff> = HashMap::new();
  let mut base: Vec<Option<Run<'tcx>>> = vec![];
  for inp in &inputs {
    let r = m.run(inp, None, locs);
    stats.inputs += 1;
    stats.runs += 1;
    stats.steps += r.nsteps;
    match &r.res {
      Ok(()) => base.push(Some(r)),
      Err(Stop::Unsupported(s)) => return Err(s.clone()),
      Err(_) => { stats.discarded += 1; base.push(None) }
    }
  }
  let mut compare = |a: &Run<'tcx>, b: &Run<'tcx>, s: Source, wit: &dyn Fn() -> String| {
    for (loc, va) in &a.seen {
      if let Some(vb) = b.seen.get(loc) {
        for i in 0 .. va.len() {
          if differs(&va[i], &vb[i]) {
            found.entry((s, *loc, i)).or_insert_with(|| Diff { source: s, obs: *loc, place: i, witness: wit() });
          }
        }
      }
    }
  };
  // arguments: pairs of runs differing in exactly one argument
  for i in 0 .. inputs.len() {
    for j in 0 .. i {
      let d: Vec<usize> = (0 .. inputs[i].len()).filter(|k| inputs[i][*k] != inputs[j][*k]).collect();
      if d.len() != 1 { continue; }
      if let (Some(a), Some(b)) = (&base[i], &base[j]) {
        compare(a, b, Source::Arg(Local::from_usize(d[0] + 1)), &|| format!("inputs {:?} vs {:?}", inputs[j], inputs[i]));
      }
    }
  }
  if locs {
    for i in 0 .. inputs.len() {
      let Some(b) = &base[i] else { continue };
      for p in perturbations(&b.steps) {
        let r = m.run(&inputs[i], Some(p.clone()), false);
        stats.runs += 1;
        stats.perturbs += 1;
        stats.steps += r.nsteps;
        if !r.hit || r.res.is_err() { 
          if let Err(Stop::Unsupported(s)) = &r.res { return Err(s.clone()); }
          stats.discarded += 1;
          continue;
        }
        compare(b, &r, Source::Loc(p.loc), &|| format!("input {:?}, perturbation {:?}", inputs[i], p));
      }
    }
  }
  let mut v: Vec<Diff> = found.into_values().collect();
  v.sort_by_key(|d| (d.source, d.obs, d.place));
  Ok(v)
}

pub fn perturbations(steps: &[Step]) -> Vec<Perturb> {
  let mut out = vec![];
  for s in steps {
    let mut add = |kind| out.push(Perturb { loc: s.loc, visit: Some(s.visit), kind });
    for leaf in 0 .. s.scalar_leaves {
      for alt in 0 .. ALTS { add(PKind::Write { leaf, alt }); }
    }
    for leaf in 0 .. s.ptr_leaves { add(PKind::Retarget { leaf }); }
    for t in 0 .. s.switch_targets {
      if t != s.taken { add(PKind::Switch { target: t }); }
    }
    for (nth, n) in s.call_cells.iter().enumerate() {
      for leaf in 0 .. *n { for alt in 0 .. ALTS { add(PKind::CallCell { nth, leaf, alt }); } }
    }
  }
  out
}
