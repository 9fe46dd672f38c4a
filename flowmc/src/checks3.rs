//! Checks of what the analysis reports, without running the programs: modularity, evaluation modes,
//! precision, place algebra, determinism, totality.
use std::collections::{BTreeSet, HashMap, HashSet};

use flowistry::extensions::{ContextMode, EvalMode, MutabilityMode, PointerMode, EVAL_MODE};
use flowistry::infoflow::{self, Direction, FlowResults};
use flowistry::mir::placeinfo::PlaceInfo;
use rustc_hir::Mutability;
use rustc_middle::mir::visit::{PlaceContext, Visitor};
use rustc_middle::mir::*;

use rustc_utils::mir::location_or_arg::LocationOrArg;
use rustc_utils::PlaceExt;

use crate::checks::{Out, Prog, Viol};

struct Places<'tcx>(Vec<Place<'tcx>>);
impl<'tcx> Visitor<'tcx> for Places<'tcx> {
  fn visit_place(&mut self, p: &Place<'tcx>, _c: PlaceContext, _l: Location) {
    if !self.0.contains(p) { self.0.push(*p); }
  }
}

/// Every local and every place mentioned in the body.
pub fn all_places<'tcx>(body: &Body<'tcx>) -> Vec<Place<'tcx>> {
  let mut v = Places(body.local_decls.indices().map(Place::from).collect());
  for (bb, data) in body.basic_blocks.iter_enumerated() {
    for (i, s) in data.statements.iter().enumerate() {
      if let StatementKind::Assign(_) = s.kind { v.visit_statement(s, Location { block: bb, statement_index: i }); }
    }
    v.visit_terminator(data.terminator(), Location { block: bb, statement_index: data.statements.len() });
  }
  v.0
}

pub fn all_locations(body: &Body) -> Vec<Location> {
  let mut v = vec![];
  for (bb, data) in body.basic_blocks.iter_enumerated() {
    for i in 0 ..= data.statements.len() { v.push(Location { block: bb, statement_index: i }); }
  }
  v
}

/// Dependencies of every place at every location: (location, place, sorted codes).
pub type Deps = Vec<(Location, usize, Vec<u64>)>;

fn code(x: &LocationOrArg) -> u64 {
  match x {
    LocationOrArg::Arg(l) => l.as_u32() as u64,
    LocationOrArg::Location(l) => 1 << 62 | (l.block.as_u32() as u64) << 32 | l.statement_index as u64,
  }
}
pub fn name(c: u64) -> String {
  if c >> 62 == 0 { format!("{:?}", LocationOrArg::Arg(Local::from_usize(c as usize))) }
  else { format!("{:?}", LocationOrArg::Location(Location { block: BasicBlock::from_usize((c << 2 >> 34) as usize), statement_index: c as u32 as usize })) }
}
pub fn show(d: &(Location, usize, Vec<u64>)) -> String {
  format!("{:?} #{}: {:?}", d.0, d.1, d.2.iter().map(|c| name(*c)).collect::<Vec<_>>())
}
fn codes<'b>(it: impl Iterator<Item = &'b LocationOrArg>) -> Vec<u64> {
  let mut v: Vec<u64> = it.map(code).collect();
  v.sort();
  v
}

fn dep_map<'tcx>(results: &FlowResults<'_, 'tcx>, places: &[Place<'tcx>], locs: &[Location]) -> Deps {
  let mut m = Vec::with_capacity(places.len() * locs.len());
  for loc in locs {
    let st = results.state_at(*loc);
    for (i, p) in places.iter().enumerate() {
      m.push((*loc, i, codes(results.analysis.deps_for(st, *p).iter())));
    }
  }
  m
}

fn deps_of<'tcx>(p: &Prog<'tcx>, mode: Option<EvalMode>) -> Deps {
  let go = || {
    let r = infoflow::compute_flow(p.tcx, p.body_id, p.facts);
    dep_map(&r, &all_places(&p.facts.body), &all_locations(&p.facts.body))
  };
  match mode { Some(m) => EVAL_MODE.set(m, go), None => go() }
}

/// What the analysis says about one function (C05, C12).
pub fn dump(p: &Prog) -> Deps {
  let r = infoflow::compute_flow(p.tcx, p.body_id, p.facts);
  let places = all_places(&p.facts.body);
  let locs = all_locations(&p.facts.body);
  let mut out = dep_map(&r, &places, &locs);
  // forward and backward slices of every place
  let targets: Vec<Vec<(Place, LocationOrArg)>> = places.iter().map(|pl| vec![(*pl, LocationOrArg::Location(locs[0]))]).collect();
  for (i, f) in infoflow::compute_dependencies(&r, targets, Direction::Both).iter().enumerate() {
    out.push((Location::START, 1000 + i, codes(f.iter())));
  }
  out
}

/// What the recursive mode says about one function in the end (C12).
pub fn dump_recurse(p: &Prog) -> Deps {
  in_mode(MODES[4], || {
    let r = infoflow::compute_flow(p.tcx, p.body_id, p.facts);
    let ends: Vec<Location> = all_locations(&p.facts.body).into_iter().filter(|l| p.facts.body.basic_blocks[l.block].statements.len() == l.statement_index).collect();
    dep_map(&r, &all_places(&p.facts.body), &ends)
  })
}

/// Every evaluation mode: mutability and pointer levers, first without and then with recursion.
pub const MODES: [EvalMode; 8] = {
  use ContextMode::*; use MutabilityMode::*; use PointerMode::*;
  const fn m(a: MutabilityMode, b: ContextMode, c: PointerMode) -> EvalMode { EvalMode { mutability_mode: a, context_mode: b, pointer_mode: c } }
  [
    m(DistinguishMut, SigOnly, Precise), m(IgnoreMut, SigOnly, Precise), m(DistinguishMut, SigOnly, Conservative), m(IgnoreMut, SigOnly, Conservative),
    m(DistinguishMut, Recurse, Precise), m(IgnoreMut, Recurse, Precise), m(DistinguishMut, Recurse, Conservative), m(IgnoreMut, Recurse, Conservative),
  ]
};
pub fn in_mode<T>(mode: EvalMode, f: impl FnOnce() -> T) -> T { EVAL_MODE.set(mode, f) }

/// C06: weaker evaluation modes report more, never less.
pub fn modes(p: &Prog, out: &mut Out) {
  let base = deps_of(p, None);
  let m = |a, b, c| EvalMode { mutability_mode: a, context_mode: b, pointer_mode: c };
  use ContextMode::*; use MutabilityMode::*; use PointerMode::*;
  let explicit = deps_of(p, Some(m(DistinguishMut, SigOnly, Precise)));
  if explicit != base { out.viols.push(Viol { key: "default".into(), detail: "asking for the default mode explicitly changes the answer".into() }); }
  let ig = deps_of(p, Some(m(IgnoreMut, SigOnly, Precise)));
  let co = deps_of(p, Some(m(DistinguishMut, SigOnly, Conservative)));
  let both = deps_of(p, Some(m(IgnoreMut, SigOnly, Conservative)));
  let again = deps_of(p, None);
  if again != base { out.viols.push(Viol { key: "leak".into(), detail: "an evaluation mode leaks into a later default analysis".into() }); }
  let places = all_places(&p.facts.body);
  let mut strict = false;
  for (small, big, mode) in [(&base, &ig, "IgnoreMut"), (&base, &co, "Conservative"), (&base, &both, "IgnoreMut+Conservative")] {
    for (s, b) in small.iter().zip(big) {
      out.add("evaluations", 1);
      strict |= b.2.len() > s.2.len();
      if let Some(x) = s.2.iter().find(|x| b.2.binary_search(x).is_err()) {
        let x = name(*x);
        out.viols.push(Viol { key: format!("{mode} {:?}@{:?} {x}", places[s.1], s.0), detail: format!("{x} is a dependency of {:?} at {:?} by default but not in the coarser mode {mode}", places[s.1], s.0) });
      }
    }
  }
  out.add("nontrivial", strict as u64);
}

/// C07: dependences found by executing must be reported when the analysis recurses into callees.
pub fn recurse(p: &Prog, out: &mut Out, cap: usize) {
  let mode = EvalMode { mutability_mode: MutabilityMode::DistinguishMut, context_mode: ContextMode::Recurse, pointer_mode: PointerMode::Precise };
  EVAL_MODE.set(mode, || crate::checks::backward(p, out, cap));
}

/// C08: on bodies without references and calls, the analysis reports nothing an elementary
/// flow-sensitive whole-variable analysis would not.
pub fn baseline(p: &Prog, out: &mut Out) {
  let body = &p.facts.body;
  // only bodies in the elementary fragment
  for data in body.basic_blocks.iter() {
    for s in &data.statements {
      if let StatementKind::Assign(a) = &s.kind && matches!(a.1, Rvalue::Ref(..) | Rvalue::RawPtr(..)) { out.add("outside_fragment", 1); return; }
    }
    if matches!(data.terminator().kind, TerminatorKind::Call { .. }) && !data.is_cleanup { out.add("outside_fragment", 1); return; }
  }
  if body.local_decls.iter().any(|l| l.ty.is_any_ptr() || l.ty.is_box()) { out.add("outside_fragment", 1); return; }
  let nb = body.basic_blocks.len();
  let succ: Vec<Vec<usize>> = body.basic_blocks.iter().map(|d| d.terminator().successors().map(|s| s.as_usize()).collect()).collect();
  // direct control dependence, from the definition: some successor of b cannot reach the exit
  // without x, and b itself can (per exit, ignoring blocks that cannot reach it)
  let exits: Vec<usize> = (0 .. nb).filter(|b| matches!(body.basic_blocks[BasicBlock::from_usize(*b)].terminator().kind, TerminatorKind::Return)).collect();
  let reach = |from: usize, to: usize, avoid: Option<usize>| {
    if Some(from) == avoid { return false; }
    let mut seen = vec![false; nb];
    let mut st = vec![from];
    seen[from] = true;
    while let Some(x) = st.pop() {
      if x == to { return true; }
      for s in &succ[x] { if Some(*s) != avoid && !seen[*s] { seen[*s] = true; st.push(*s); } }
    }
    false
  };
  let mut ctrl: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); nb];
  for &e in &exits {
    let alive: Vec<bool> = (0 .. nb).map(|b| reach(b, e, None)).collect();
    // pdom(x, b): every path b -> e goes through x
    let pdom = |x: usize, b: usize| x == b || !reach(b, e, Some(x));
    for x in 0 .. nb {
      if !alive[x] { continue; }
      for b in 0 .. nb {
        if !alive[b] { continue; }
        let some = succ[b].iter().any(|s| alive[*s] && pdom(x, *s));
        // the exit itself controls nothing
        if b != e && some && !(x != b && pdom(x, b)) { ctrl[x].insert(b); }
      }
    }
  }
  let closure: Vec<BTreeSet<usize>> = (0 .. nb).map(|x| {
    let mut seen = BTreeSet::new();
    let mut st: Vec<usize> = ctrl[x].iter().copied().collect();
    while let Some(y) = st.pop() { if seen.insert(y) { st.extend(ctrl[y].iter().copied()); } }
    seen
  }).collect();
  type St = Vec<BTreeSet<String>>;
  let nl = body.local_decls.len();
  let term_loc = |b: usize| Location { block: BasicBlock::from_usize(b), statement_index: body.basic_blocks[BasicBlock::from_usize(b)].statements.len() };
  let apply = |st: &mut St, loc: Location| {
    let data = &body.basic_blocks[loc.block];
    let (dest, used) = if loc.statement_index < data.statements.len() {
      match &data.statements[loc.statement_index].kind {
        StatementKind::Assign(a) => { let mut v = Places(vec![]); v.visit_rvalue(&a.1, loc); (a.0, v.0) }
        _ => return,
      }
    } else { return };
    let mut d = BTreeSet::from([format!("{:?}", LocationOrArg::Location(loc))]);
    for u in used.iter().chain(&Places::indices(dest)) {
      d.extend(st[u.local.as_usize()].iter().cloned());
      for i in Places::indices(*u) { d.extend(st[i.local.as_usize()].iter().cloned()); }
    }
    for b in &closure[loc.block.as_usize()] {
      d.insert(format!("{:?}", LocationOrArg::Location(term_loc(*b))));
      if let TerminatorKind::SwitchInt { discr, .. } = &body.basic_blocks[BasicBlock::from_usize(*b)].terminator().kind && let Some(p) = discr.place() {
        d.extend(st[p.local.as_usize()].iter().cloned());
      }
    }
    let slot = &mut st[dest.local.as_usize()];
    if !dest.projection.is_empty() { d.extend(slot.iter().cloned()); }
    *slot = d;
  };
  let mut input: Vec<St> = vec![vec![BTreeSet::new(); nl]; nb];
  for a in body.args_iter() { input[0][a.as_usize()].insert(format!("{:?}", LocationOrArg::Arg(a))); }
  let run_block = |st: &mut St, b: usize, upto: usize| for i in 0 ..= upto { apply(st, Location { block: BasicBlock::from_usize(b), statement_index: i }); };
  loop {
    let mut changed = false;
    for b in 0 .. nb {
      let mut st = input[b].clone();
      run_block(&mut st, b, body.basic_blocks[BasicBlock::from_usize(b)].statements.len());
      for s in &succ[b] {
        for l in 0 .. nl { for x in &st[l] { if input[*s][l].insert(x.clone()) { changed = true; } } }
      }
    }
    if !changed { break; }
  }
  let results = infoflow::compute_flow(p.tcx, p.body_id, p.facts);
  let places = all_places(body);
  for loc in all_locations(body) {
    let mut st = input[loc.block.as_usize()].clone();
    run_block(&mut st, loc.block.as_usize(), loc.statement_index);
    out.add("states", 1);
    for pl in &places {
      let mut bound = st[pl.local.as_usize()].clone();
      for i in Places::indices(*pl) { bound.extend(st[i.local.as_usize()].iter().cloned()); }
      out.add("comparisons", 1);
      out.add("transitions", 1);
      for x in results.analysis.deps_for(results.state_at(loc), *pl).iter() {
        let x = format!("{x:?}");
        if !bound.contains(&x) {
          out.viols.push(Viol { key: format!("{x}->{pl:?}@{loc:?}"), detail: format!("{x} is reported as a dependency of {pl:?} at {loc:?}, but no chain of assignments and branches leads from it there (elementary analysis: {bound:?})") });
        }
      }
    }
  }
  out.add("nontrivial", 1);
}
impl<'tcx> Places<'tcx> {
  fn indices(p: Place<'tcx>) -> Vec<Place<'tcx>> {
    p.projection.iter().filter_map(|e| match e { ProjectionElem::Index(l) => Some(Place::from(l)), _ => None }).collect()
  }
}

/// C09: the worlds never meet, so what is observed of one does not depend on the other.
pub fn worlds(p: &Prog, out: &mut Out) {
  let body = &p.facts.body;
  let sm = p.tcx.sess.source_map();
  let world = |loc: Location| -> Option<char> {
    let sp = body.source_info(loc).span;
    let lo = sm.lookup_char_pos(sp.lo());
    let line = lo.file.get_line(lo.line - 1)?.trim_start().to_string();
    let hi = sm.lookup_char_pos(sp.hi());
    if hi.line != lo.line { return None; }
    if line.starts_with("/*A*/") { Some('A') } else if line.starts_with("/*B*/") { Some('B') } else { None }
  };
  let mut owner: HashMap<Local, char> = HashMap::new();
  let mut observed = vec![];
  for v in &body.var_debug_info {
    if let VarDebugInfoContents::Place(pl) = v.value {
      let n = v.name.as_str();
      if pl.projection.is_empty() {
        if n.starts_with("a_") { owner.insert(pl.local, 'A'); observed.push((pl, 'A', n.to_string())); }
        if n.starts_with("b_") { owner.insert(pl.local, 'B'); observed.push((pl, 'B', n.to_string())); }
      }
    }
  }
  let results = infoflow::compute_flow(p.tcx, p.body_id, p.facts);
  let mut nontrivial = false;
  for loc in all_locations(body) {
    if !matches!(body.basic_blocks[loc.block].terminator().kind, TerminatorKind::Return) || loc.statement_index != body.basic_blocks[loc.block].statements.len() { continue; }
    for (pl, w, n) in &observed {
      let deps = results.analysis.deps_for(results.state_at(loc), *pl);
      for d in deps.iter() {
        out.add("evaluations", 1);
        let other = match d {
          LocationOrArg::Arg(l) => owner.get(l).copied(),
          LocationOrArg::Location(l) => world(*l),
        };
        match other {
          Some(o) if o != *w => out.viols.push(Viol {
            key: format!("{n}<-{d:?}"),
            detail: format!("{n} belongs to world {w}, which shares nothing mutable with world {o}, but {d:?} of world {o} is reported among its dependencies"),
          }),
          Some(_) => nontrivial = true,
          None => {}
        }
      }
    }
  }
  out.add("nontrivial", nontrivial as u64);
}

/// C11: laws of the place relations.
pub fn algebra(p: &Prog, out: &mut Out) {
  let body = &p.facts.body;
  let tcx = p.tcx;
  let pi = PlaceInfo::build(tcx, p.def.to_def_id(), p.facts);
  let mut places = all_places(body);
  // close under children once: fields of what is mentioned
  for pl in places.clone() {
    for c in pi.children(pl) { if !places.contains(&c) { places.push(c); } }
  }
  let n = places.len();
  let bad = |out: &mut Out, law: &str, a: Place, b: Option<Place>, why: String| {
    out.viols.push(Viol { key: format!("{law} {a:?} {}", b.map(|b| format!("{b:?}")).unwrap_or_default()), detail: why });
  };
  let norm = |pl| pi.normalize(pl);
  let proj = |pl: Place<'_>| -> Vec<String> {
    pl.projection.iter().map(|e| match e {
      ProjectionElem::Deref => "*".into(),
      ProjectionElem::Field(f, _) => format!(".{}", f.as_u32()),
      ProjectionElem::Downcast(_, v) => format!("@{}", v.as_u32()),
      ProjectionElem::Index(_) | ProjectionElem::ConstantIndex { .. } => "[]".into(),
      e => format!("{e:?}"),
    }).collect()
  };
  for i in 0 .. n {
    let a = places[i];
    out.add("evaluations", 1);
    if norm(norm(a)) != norm(a) { bad(out, "normalize", a, None, format!("normalizing {a:?} twice differs from once")); }
    let ch = pi.children(a);
    if !ch.contains(&a) && !ch.iter().any(|c| norm(*c) == norm(a)) { bad(out, "child-self", a, None, format!("{a:?} is not among its own parts")); }
    for c in &ch {
      let (pa, pc) = (proj(a), proj(*c));
      if c.local != a.local || !pc.starts_with(&pa) { bad(out, "child-prefix", a, Some(*c), format!("{c:?} is called a part of {a:?}")); continue; }
      // parts are inside the same memory: no reference is crossed
      let mut ty = a.ty(&body.local_decls, tcx);
      for e in &c.projection[a.projection.len() ..] {
        if matches!(e, ProjectionElem::Deref) && ty.ty.is_ref() { bad(out, "child-deref", a, Some(*c), format!("{c:?} is behind a reference, yet called a part of {a:?}")); }
        ty = ty.projection_ty(tcx, *e);
      }
    }
    let (al_not, al_mut) = (pi.reachable_values(a, Mutability::Not), pi.reachable_values(a, Mutability::Mut));
    for x in al_mut { if !al_not.contains(x) { bad(out, "reach-mono", a, Some(*x), format!("{x:?} is reachable mutably but not immutably from {a:?}")); } }
    if a.is_direct(body, tcx) && !al_not.contains(&a) { bad(out, "reach-self", a, None, format!("{a:?} is not reachable from itself")); }
    if !a.is_indirect() {
      let al = pi.aliases(a);
      if al.len() != 1 || !al.iter().any(|x| norm(*x) == norm(a)) { bad(out, "alias-direct", a, None, format!("{a:?} involves no dereference, but its aliases are {al:?}")); }
    }
    if a.is_indirect() && a.is_arg(body) && !pi.aliases(a).iter().any(|x| norm(*x) == norm(a)) {
      bad(out, "alias-self", a, None, format!("memory passed in through {a:?} is not an alias of itself"));
    }
    // conflicts of a: parts and enclosing places up to the innermost reference
    let co: HashSet<(Local, Vec<String>)> = pi.conflicts(a).iter().map(|c| (c.local, proj(*c))).collect();
    for c in &ch { if !co.contains(&(c.local, proj(*c))) { bad(out, "conflict-child", a, Some(*c), format!("{c:?} is a part of {a:?} but does not conflict with it")); } }
    let pa = proj(a);
    let mut ty = rustc_middle::mir::PlaceTy::from_ty(body.local_decls[a.local].ty);
    let mut start = 0;
    for (k, e) in a.projection.iter().enumerate() {
      if matches!(e, ProjectionElem::Deref) && !ty.ty.is_box() { start = k + 1; }
      ty = ty.projection_ty(tcx, e);
    }
    for k in 0 ..= pa.len() {
      let has = co.contains(&(a.local, pa[.. k].to_vec()));
      let inside = k >= start;
      if inside && !has { bad(out, "conflict-parent", a, None, format!("writing {a:?} also changes {:?}{:?}, but they do not conflict", a.local, &pa[.. k])); }
      if !inside && has { bad(out, "conflict-beyond", a, None, format!("{:?}{:?} holds a reference leading to {a:?} but is called in conflict with it", a.local, &pa[.. k])); }
    }
    for j in 0 .. n {
      let b = places[j];
      if b.local != a.local { 
        if pi.conflicts(a).contains(&b) { bad(out, "conflict-local", a, Some(b), "different variables conflict".into()); }
        continue;
      }
      let pb = proj(b);
      let disjoint = pa.iter().zip(&pb).any(|(x, y)| x != y && x.starts_with('.') && y.starts_with('.'));
      let first = pa.iter().zip(&pb).position(|(x, y)| x != y);
      let clean = first.map(|f| pa[f].starts_with('.') && pb[f].starts_with('.')).unwrap_or(false);
      if disjoint && clean && pi.conflicts(a).iter().any(|c| norm(*c) == norm(b)) { bad(out, "conflict-disjoint", a, Some(b), format!("{a:?} and {b:?} are different fields but conflict")); }
      if clean && norm(a) == norm(b) { bad(out, "normalize-field", a, Some(b), format!("{a:?} and {b:?} are different fields but normalize alike")); }
    }
  }
  out.add("nontrivial", places.iter().any(|p| !p.projection.is_empty()) as u64);
}

/// C12 (one session): asking again, after other questions, gives the same answer.
pub fn again(p: &Prog, out: &mut Out) {
  let a = dump(p);
  let mode = EvalMode { mutability_mode: MutabilityMode::IgnoreMut, context_mode: ContextMode::Recurse, pointer_mode: PointerMode::Conservative };
  EVAL_MODE.set(mode, || { let _ = infoflow::compute_flow(p.tcx, p.body_id, p.facts); });
  // ask in another order on the same results
  let r = infoflow::compute_flow(p.tcx, p.body_id, p.facts);
  let places = all_places(&p.facts.body);
  let mut b: Deps = vec![];
  for loc in all_locations(&p.facts.body).into_iter().rev() {
    for (i, pl) in places.iter().enumerate().rev() {
      let _ = r.analysis.place_info.reachable_values(*pl, Mutability::Mut);
      b.push((loc, i, codes(r.analysis.deps_for(r.state_at(loc), *pl).iter())));
    }
  }
  b.reverse();
  out.add("evaluations", b.len() as u64);
  if a[.. b.len()] != b[..] {
    let d = a.iter().zip(&b).find(|(x, y)| x != y).map(|(x, y)| format!("{} or {}", show(x), show(y)));
    out.viols.push(Viol { key: "order".into(), detail: format!("the answer depends on the order of questions: {d:?}") });
  }
}

/// C13: every query answers, in every evaluation mode.
pub fn total(p: &Prog, out: &mut Out) {
  use ContextMode::*; use MutabilityMode::*; use PointerMode::*;
  for mu in [DistinguishMut, IgnoreMut] {
    for cx in [SigOnly, Recurse] {
      for po in [Precise, Conservative] {
        let mode = EvalMode { mutability_mode: mu, context_mode: cx, pointer_mode: po };
        EVAL_MODE.set(mode, || {
          let r = infoflow::compute_flow(p.tcx, p.body_id, p.facts);
          let places = all_places(&p.facts.body);
          let locs = all_locations(&p.facts.body);
          let ends: Vec<Location> = locs.iter().copied().filter(|l| p.facts.body.basic_blocks[l.block].statements.len() == l.statement_index).collect();
          let d = dep_map(&r, &places, &ends);
          out.add("evaluations", d.len() as u64);
          let targets = places.iter().map(|pl| vec![(*pl, LocationOrArg::Location(locs[0])), (*pl, LocationOrArg::Location(*locs.last().unwrap()))]).collect();
          let f = infoflow::compute_dependencies(&r, targets, Direction::Both);
          out.add("evaluations", f.len() as u64);
        });
      }
    }
  }
  out.add("nontrivial", 1);
}

