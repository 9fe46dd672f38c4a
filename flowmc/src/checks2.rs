//! Checks that watch executions of the body step by step: forward slices, aliases, mutations.
use std::collections::{BTreeMap, HashMap, HashSet};

use flowistry::infoflow::mutation::{ModularMutationVisitor, Mutation, MutationStatus};
use flowistry::infoflow::{self, Direction};
use rustc_middle::mir::visit::{PlaceContext, Visitor};
use rustc_middle::mir::*;
use rustc_middle::ty::TyCtxt;
use rustc_utils::mir::location_or_arg::LocationOrArg;
use rustc_utils::PlaceExt;

use crate::checks::{Out, Prog, Viol};
use crate::interp::*;
use crate::oracle::*;

/// What every location did during a run: one value per execution.
#[derive(Default)]
struct Trace { at: HashMap<Location, Vec<Val>>, exit: Option<Location> }

struct TraceObs<'a, 'tcx> { m: &'a BodyModel<'tcx>, t: Trace }
impl<'tcx> Observer<'tcx> for TraceObs<'_, 'tcx> {
  fn before(&mut self, i: &mut Interp<'tcx>, f: &Frame<'tcx>, loc: Location) {
    let data = &self.m.body.basic_blocks[loc.block];
    if loc.statement_index == data.statements.len() && matches!(data.terminator().kind, TerminatorKind::Return) { self.t.exit = Some(loc); }
    if loc.statement_index == data.statements.len()
      && let TerminatorKind::SwitchInt { discr, .. } = &data.terminator().kind
      && let Some(p) = discr.place() {
        let v = look(i, f, p);
        self.t.at.entry(loc).or_default().push(v);
      }
  }
  fn after(&mut self, i: &mut Interp<'tcx>, f: &Frame<'tcx>, loc: Location) {
    let data = &self.m.body.basic_blocks[loc.block];
    let v = if loc.statement_index < data.statements.len() {
      match &data.statements[loc.statement_index].kind {
        StatementKind::Assign(a) => look(i, f, a.0),
        _ => return,
      }
    } else {
      match &data.terminator().kind {
        TerminatorKind::Call { destination, .. } => {
          let mut vs = vec![look(i, f, *destination)];
          for c in i.last_call_cells.clone() {
            let v = match i.peek(&c) { Ok(v) => v.clone(), Err(_) => Val::Uninit };
            vs.push(shallow(i, &v, 4));
          }
          Val::Agg(vs)
        }
        _ => return,
      }
    };
    self.t.at.entry(loc).or_default().push(v);
  }
}

fn look<'tcx>(i: &mut Interp<'tcx>, f: &Frame<'tcx>, p: Place<'tcx>) -> Val {
  match i.place(f, p).and_then(|c| i.peek(&c).map(|v| v.clone())) {
    Ok(v) => shallow(i, &v, 4),
    Err(_) => Val::Uninit,
  }
}

/// The value itself: references are opaque, boxes are looked into.
fn shallow(i: &mut Interp, v: &Val, depth: usize) -> Val {
  match v {
    Val::Ptr(p) if p.owned && depth > 0 => match i.peek(&(p.alloc, p.path.clone())).map(|x| x.clone()) {
      Ok(inner) => Val::Agg(vec![shallow(i, &inner, depth - 1)]),
      Err(_) => Val::Uninit,
    },
    Val::Ptr(_) => Val::Opaque,
    Val::Agg(f) => Val::Agg(f.iter().map(|x| shallow(i, x, depth)).collect()),
    Val::Enum(d, f) => Val::Enum(*d, f.iter().map(|x| shallow(i, x, depth)).collect()),
    v => v.clone(),
  }
}

struct TRun { res: Result<(), Stop>, trace: Trace, steps: Vec<Step>, hit: bool, n: u64 }

fn run_trace<'tcx>(m: &BodyModel<'tcx>, inputs: &[Inp], perturb: Option<Perturb>, record: bool) -> TRun {
  let mut it = Interp::new(m.tcx, 600);
  let args: Vec<Val> = inputs.iter().map(|x| materialize(&mut it, x)).collect();
  it.perturb = perturb;
  it.record_steps = record;
  it.entry_len = it.mem.len();
  let mut obs = TraceObs { m, t: Trace::default() };
  let r = it.run_body(m.body, m.facts, m.gargs, args, &mut obs);
  TRun { res: r.map(|_| ()), trace: obs.t, steps: it.steps, hit: it.perturb_hit, n: it.nsteps }
}

fn affected(m: &BodyModel, a: &Trace, b: &Trace) -> Vec<Location> {
  let mut out = vec![];
  // Whether an early return is taken is not a dependence of what follows it.
  if a.exit != b.exit { return out; }
  let empty = vec![];
  for loc in a.at.keys().chain(b.at.keys().filter(|l| !a.at.contains_key(l))) {
    let (x, y) = (a.at.get(loc).unwrap_or(&empty), b.at.get(loc).unwrap_or(&empty));
    // A branch is affected when it is reached both times and decided on a different value;
    // whether it is reached at all shows in what it guards.
    let data = &m.body.basic_blocks[loc.block];
    let switch = loc.statement_index == data.statements.len() && matches!(data.terminator().kind, TerminatorKind::SwitchInt { .. });
    if switch && (!m.noncyclic.contains(loc) || x.len() != y.len()) { continue; }
    if x.len() != y.len() || x.iter().zip(y).any(|(p, q)| differs(p, q)) { out.push(*loc); }
  }
  out
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
enum Src { Arg(Local), Val(Location), Eff(Location), Discr(Location) }

/// C02: everything a change affects is in the forward slice of what was changed.
pub fn forward(p: &Prog, out: &mut Out, cap: usize) {
  let m = BodyModel::new(p.tcx, p.facts);
  let Some(inputs) = m.inputs(cap) else { out.unsupported = Some("input domain".into()); return };
  let mut found: BTreeMap<(Src, Location), String> = BTreeMap::new();
  let mut base: Vec<Option<TRun>> = vec![];
  for inp in &inputs {
    let r = run_trace(&m, inp, None, true);
    out.add("executions", 1);
    out.add("transitions", r.n);
    match &r.res {
      Ok(()) => base.push(Some(r)),
      Err(Stop::Unsupported(s)) => { out.unsupported = Some(s.clone()); return }
      Err(_) => { out.add("discarded_executions", 1); base.push(None) }
    }
  }
  for i in 0 .. inputs.len() {
    for j in 0 .. i {
      let d: Vec<usize> = (0 .. inputs[i].len()).filter(|k| inputs[i][*k] != inputs[j][*k]).collect();
      if d.len() != 1 { continue; }
      if let (Some(a), Some(b)) = (&base[i], &base[j]) {
        for l in affected(&m, &a.trace, &b.trace) {
          found.entry((Src::Arg(Local::from_usize(d[0] + 1)), l)).or_insert_with(|| format!("inputs {:?} vs {:?}", inputs[j], inputs[i]));
        }
      }
    }
  }
  for i in 0 .. inputs.len() {
    let Some(b) = &base[i] else { continue };
    for pt in perturbations(&b.steps) {
      let r = run_trace(&m, &inputs[i], Some(pt.clone()), false);
      out.add("executions", 1);
      out.add("transitions", r.n);
      if let Err(Stop::Unsupported(s)) = &r.res { out.unsupported = Some(s.clone()); return }
      if !r.hit || r.res.is_err() { out.add("discarded_executions", 1); continue; }
      let src = match pt.kind {
        PKind::Switch { .. } => Src::Discr(pt.loc),
        PKind::CallCell { .. } => Src::Eff(pt.loc),
        _ => Src::Val(pt.loc),
      };
      for l in affected(&m, &b.trace, &r.trace) {
        found.entry((src, l)).or_insert_with(|| format!("input {:?}, perturbation {:?}", inputs[i], pt));
      }
    }
  }
  out.add("dynamic_dependences", found.len() as u64);
  out.add("nontrivial", !found.is_empty() as u64);
  let results = infoflow::compute_flow(p.tcx, p.body_id, p.facts);
  let mut cache: HashMap<Src, Option<HashSet<LocationOrArg>>> = HashMap::new();
  for ((src, loc), wit) in &found {
    if let Src::Val(l) | Src::Eff(l) | Src::Discr(l) = src && l == loc { continue; }
    let slice = cache.entry(*src).or_insert_with(|| {
      let targets = match src {
        Src::Arg(a) => vec![(Place::from_local(*a, p.tcx), LocationOrArg::Arg(*a))],
        Src::Val(l) => {
          let data = &m.body.basic_blocks[l.block];
          let place = if l.statement_index < data.statements.len() {
            match &data.statements[l.statement_index].kind { StatementKind::Assign(a) => a.0, _ => return None }
          } else {
            match &data.terminator().kind { TerminatorKind::Call { destination, .. } => *destination, _ => return None }
          };
          vec![(place, LocationOrArg::Location(*l))]
        }
        Src::Eff(l) => {
          let mut v = vec![];
          ModularMutationVisitor::new(&results.analysis.place_info, |_, ms| {
            v.extend(ms.into_iter().map(|m| (m.mutated, LocationOrArg::Location(*l))));
          }).visit_terminator(m.body.basic_blocks[l.block].terminator(), *l);
          v
        }
        Src::Discr(l) => match &m.body.basic_blocks[l.block].terminator().kind {
          TerminatorKind::SwitchInt { discr, .. } => match discr.place() {
            Some(pl) => vec![(pl, LocationOrArg::Location(*l))],
            None => return None,
          },
          _ => return None,
        },
      };
      let r = infoflow::compute_dependencies(&results, vec![targets], Direction::Forward);
      Some(r[0].iter().copied().collect())
    });
    let Some(slice) = slice else { continue };
    out.add("comparisons", 1);
    if !slice.contains(&LocationOrArg::Location(*loc)) {
      out.viols.push(Viol {
        key: format!("{:?}=>{:?}", src, loc),
        detail: format!("changing {src:?} changes what {loc:?} does, but {loc:?} is not in its forward slice: {wit}"),
      });
    }
  }
}

/// A memory region an alias denotes; None = unknown index.
type Region = (usize, Vec<Option<u32>>);

fn resolve<'tcx>(i: &mut Interp<'tcx>, f: &Frame<'tcx>, place: Place<'tcx>) -> Option<Region> {
  let mut c: Region = (f.locals[place.local.as_usize()], vec![]);
  for elem in place.projection {
    match elem {
      ProjectionElem::Deref => {
        let conc: Option<Vec<u32>> = c.1.iter().copied().collect();
        let v = i.peek(&(c.0, conc?)).ok()?;
        match v { Val::Ptr(p) => c = (p.alloc, p.path.iter().map(|x| Some(*x)).collect()), _ => return None }
      }
      ProjectionElem::Field(x, _) => c.1.push(Some(x.as_u32())),
      ProjectionElem::Index(_) | ProjectionElem::ConstantIndex { .. } => c.1.push(None),
      _ => {}
    }
  }
  Some(c)
}
fn overlaps(a: &Region, c: &Cell) -> bool {
  a.0 == c.0 && a.1.iter().zip(&c.1).all(|(x, y)| x.map(|x| x == *y).unwrap_or(true))
}

struct Derefs<'tcx>(Vec<Place<'tcx>>);
impl<'tcx> Visitor<'tcx> for Derefs<'tcx> {
  fn visit_place(&mut self, p: &Place<'tcx>, _c: PlaceContext, _l: Location) {
    if p.is_indirect() && !self.0.contains(p) { self.0.push(*p); }
  }
}

struct AliasObs<'a, 'b, 'tcx> {
  tcx: TyCtxt<'tcx>,
  pi: &'a flowistry::mir::placeinfo::PlaceInfo<'b, 'tcx>,
  entry: Option<Vec<Val>>,
  mode: Mode,
  found: BTreeMap<(Location, String), String>,
  comparisons: u64,
  /// regions the mutations of the current location may write, computed before it runs
  allowed: Vec<(String, Vec<Region>, Option<Place<'tcx>>)>,
  want_input: String,
}
#[derive(Clone, Copy, PartialEq)]
enum Mode { Alias, Mutate }

/// Aliases that name memory without going through a reference computed by the body itself.
fn grounded<'tcx>(body: &Body<'tcx>, tcx: TyCtxt<'tcx>, a: Place<'tcx>) -> bool {
  a.refs_in_projection(body, tcx).next().is_none() || a.is_arg(body)
}

impl<'tcx> AliasObs<'_, '_, 'tcx> {
  fn regions(&mut self, i: &mut Interp<'tcx>, f: &Frame<'tcx>, p: Place<'tcx>) -> Vec<Region> {
    let mut out = vec![];
    let aliases: Vec<Place<'tcx>> = self.pi.aliases(p).iter().copied().collect();
    for a in aliases {
      if !grounded(f.body, self.tcx, a) { continue; }
      let through_ref = a.refs_in_projection(f.body, self.tcx).next().is_some();
      if through_ref {
        // rooted in an argument: names the memory the argument pointed to on entry
        let saved = std::mem::replace(&mut i.mem, self.entry.clone().unwrap());
        out.extend(resolve(i, f, a));
        i.mem = saved;
      } else {
        out.extend(resolve(i, f, a));
      }
    }
    out
  }
}

impl<'tcx> Observer<'tcx> for AliasObs<'_, '_, 'tcx> {
  fn before(&mut self, i: &mut Interp<'tcx>, f: &Frame<'tcx>, loc: Location) {
    if self.entry.is_none() { self.entry = Some(i.mem.clone()); }
    let data = &f.body.basic_blocks[loc.block];
    let is_term = loc.statement_index == data.statements.len();
    if self.mode == Mode::Alias {
      let mut d = Derefs(vec![]);
      if is_term { d.visit_terminator(data.terminator(), loc) } else if let StatementKind::Assign(_) = data.statements[loc.statement_index].kind { d.visit_statement(&data.statements[loc.statement_index], loc) }
      for p in d.0 {
        let Ok(c) = i.place(f, p) else { continue };
        let owned = f.locals.contains(&c.0) || c.0 < i.entry_len;
        if !owned { continue; }
        // nothing is claimed about what raw pointers refer to
        let raw = p.iter_projections().any(|(b, e)| matches!(e, ProjectionElem::Deref) && b.ty(&f.body.local_decls, self.tcx).ty.is_raw_ptr());
        if raw { continue; }
        self.comparisons += 1;
        let rs = self.regions(i, f, p);
        if !rs.iter().any(|r| overlaps(r, &c)) {
          let who = f.locals.iter().position(|l| *l == c.0).map(|x| format!("_{x}{:?}", c.1)).unwrap_or_else(|| "memory passed in by the caller".into());
          let w = self.want_input.clone();
          self.found.entry((loc, format!("{p:?}"))).or_insert_with(|| format!("{p:?} at {loc:?} refers to {who}, which is not among its aliases {:?}: input {w}", self.pi.aliases(p)));
        }
      }
      return;
    }
    self.allowed.clear();
    let mut ms: Vec<Mutation<'tcx>> = vec![];
    {
      let mut v = ModularMutationVisitor::new(self.pi, |_, m| ms.extend(m));
      if is_term { v.visit_terminator(data.terminator(), loc) } else { v.visit_statement(&data.statements[loc.statement_index], loc) }
    }
    for mt in ms {
      let rs = self.regions(i, f, mt.mutated);
      let strong = matches!(mt.status, MutationStatus::Definitely).then_some(mt.mutated);
      self.allowed.push((format!("{:?}", mt.mutated), rs, strong));
    }
    i.track_writes = true;
  }
  fn after(&mut self, i: &mut Interp<'tcx>, f: &Frame<'tcx>, loc: Location) {
    if self.mode == Mode::Alias { return; }
    let data = &f.body.basic_blocks[loc.block];
    let is_term = loc.statement_index == data.statements.len();
    let relevant = if is_term { matches!(data.terminator().kind, TerminatorKind::Call { .. }) } else { matches!(data.statements[loc.statement_index].kind, StatementKind::Assign(..)) };
    if !relevant { return; }
    let writes = i.writes.clone();
    for c in &writes {
      if !(f.locals.contains(&c.0) || c.0 < i.entry_len) { continue; }
      self.comparisons += 1;
      if !self.allowed.iter().any(|(_, rs, _)| rs.iter().any(|r| overlaps(r, c))) {
        let who = f.locals.iter().position(|l| *l == c.0).map(|x| format!("_{x}{:?}", c.1)).unwrap_or_else(|| "memory passed in by the caller".into());
        let w = self.want_input.clone();
        let names: Vec<&String> = self.allowed.iter().map(|a| &a.0).collect();
        self.found.entry((loc, who.clone())).or_insert_with(|| format!("{loc:?} writes {who}, which no reported mutation ({names:?}) covers: input {w}"));
      }
    }
    let strong: Vec<Place<'tcx>> = self.allowed.iter().filter_map(|a| a.2).collect();
    for p in strong {
      if p.projection.iter().any(|e| matches!(e, ProjectionElem::Index(_) | ProjectionElem::ConstantIndex { .. })) { continue; }
      let Ok(c) = i.place(f, p) else { continue };
      self.comparisons += 1;
      if !writes.iter().any(|w| w.0 == c.0 && c.1.starts_with(&w.1)) {
        let w = self.want_input.clone();
        self.found.entry((loc, format!("strong {p:?}"))).or_insert_with(|| format!("{loc:?} is said to overwrite {p:?} but did not: input {w}"));
      }
    }
  }
}

fn watch(p: &Prog, out: &mut Out, cap: usize, mode: Mode) {
  let m = BodyModel::new(p.tcx, p.facts);
  let Some(inputs) = m.inputs(cap) else { out.unsupported = Some("input domain".into()); return };
  let pi = flowistry::mir::placeinfo::PlaceInfo::build(p.tcx, p.def.to_def_id(), p.facts);
  let mut obs = AliasObs { tcx: p.tcx, pi: &pi, entry: None, mode, found: BTreeMap::new(), comparisons: 0, allowed: vec![], want_input: String::new() };
  for inp in &inputs {
    let mut it = Interp::new(p.tcx, 600);
    let args: Vec<Val> = inp.iter().map(|x| materialize(&mut it, x)).collect();
    it.entry_len = it.mem.len();
    obs.entry = None;
    obs.want_input = format!("{inp:?}");
    let r = it.run_body(m.body, m.facts, m.gargs, args, &mut obs);
    out.add("executions", 1);
    out.add("transitions", it.nsteps);
    if let Err(Stop::Unsupported(s)) = r { out.unsupported = Some(s); return }
  }
  out.add("comparisons", obs.comparisons);
  out.add("nontrivial", (obs.comparisons > 0) as u64);
  for ((loc, what), d) in obs.found {
    out.viols.push(Viol { key: format!("{what}@{loc:?}"), detail: d });
  }
}

/// C03: whatever a dereference refers to when it executes is one of the aliases reported for it.
pub fn aliases(p: &Prog, out: &mut Out, cap: usize) { watch(p, out, cap, Mode::Alias) }
/// C04: whatever an instruction writes is covered by a mutation reported for it.
pub fn mutations(p: &Prog, out: &mut Out, cap: usize) { watch(p, out, cap, Mode::Mutate) }
