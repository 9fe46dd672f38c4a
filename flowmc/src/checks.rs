//! The per-program checks.
use std::collections::{BTreeMap, HashSet};

use flowistry::infoflow;
use rustc_borrowck::consumers::BodyWithBorrowckFacts;
use rustc_hir::def_id::LocalDefId;
use rustc_hir::BodyId;
use rustc_middle::ty::TyCtxt;
use rustc_utils::mir::location_or_arg::LocationOrArg;

use crate::oracle::*;

#[derive(Clone, Debug)]
pub struct Viol { pub key: String, pub detail: String }

#[derive(Default, Clone, Debug)]
pub struct Out {
  pub viols: Vec<Viol>,
  pub counts: BTreeMap<String, u64>,
  pub unsupported: Option<String>,
  pub dump: crate::checks3::Deps,
}
impl Out {
  pub fn add(&mut self, k: &str, n: u64) { *self.counts.entry(k.to_string()).or_insert(0) += n; }
}

pub struct Prog<'tcx> {
  pub tcx: TyCtxt<'tcx>,
  pub def: LocalDefId,
  pub body_id: BodyId,
  pub facts: &'tcx BodyWithBorrowckFacts<'tcx>,
}

pub fn want(s: Source) -> LocationOrArg {
  match s { Source::Arg(a) => LocationOrArg::Arg(a), Source::Loc(l) => LocationOrArg::Location(l) }
}

/// C01: every dynamic dependence is a reported dependence.
pub fn backward(p: &Prog, out: &mut Out, cap: usize) {
  let m = BodyModel::new(p.tcx, p.facts);
  let mut st = Stats::default();
  let diffs = match dynamic_deps(&m, cap, &mut st, true) {
    Ok(d) => d,
    Err(e) => { out.unsupported = Some(e); return }
  };
  let results = infoflow::compute_flow(p.tcx, p.body_id, p.facts);
  out.add("executions", st.runs);
  out.add("transitions", st.steps);
  out.add("discarded_executions", st.discarded);
  out.add("comparisons", diffs.len() as u64);
  out.add("nontrivial", !diffs.is_empty() as u64);
  let mut cache = std::collections::HashMap::new();
  for d in &diffs {
    let set: &HashSet<LocationOrArg> = cache.entry((d.obs, d.place)).or_insert_with(|| {
      results.analysis.deps_for(results.state_at(d.obs), m.at[&d.obs][d.place]).iter().copied().collect()
    });
    if !set.contains(&want(d.source)) {
      out.viols.push(Viol {
        key: format!("{:?}->{:?}@{:?}", d.source, m.at[&d.obs][d.place], d.obs),
        detail: format!("changing {:?} changes {:?} at {:?}, but it is not among its dependencies: {}", d.source, m.at[&d.obs][d.place], d.obs, d.witness),
      });
    }
  }
}
