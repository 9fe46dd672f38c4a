//! The information flow checker: every flow that executions show is reported, nothing is reported without cause,
//! and the verdict agrees with the reports.
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;

use flowistry::infoflow;
use rustc_middle::mir::*;
use rustc_middle::ty::TyCtxt;
use rustc_utils::mir::location_or_arg::LocationOrArg;
use rustc_utils::PlaceExt;
use serde_json::{json, Value};

use crate::checks::{Out, Prog};
use crate::checks3;
use crate::oracle::*;
use crate::progs;
use crate::session;

unsafe extern "C" {
  fn dup(a: i32) -> i32;
  fn dup2(a: i32, b: i32) -> i32;
  fn close(a: i32) -> i32;
}

/// Everything written to stderr while `f` runs.
fn captured<T>(f: impl FnOnce() -> T) -> (T, String) {
  use std::os::fd::AsRawFd;
  let path = format!("ifc.{}", std::process::id());
  let file = std::fs::OpenOptions::new().create(true).truncate(true).read(true).write(true).open(&path).unwrap();
  let saved = unsafe { let s = dup(2); dup2(file.as_raw_fd(), 2); s };
  let r = f();
  unsafe { dup2(saved, 2); close(saved); }
  let mut s = String::new();
  std::fs::File::open(&path).unwrap().read_to_string(&mut s).unwrap();
  let _ = std::fs::remove_file(&path);
  (r, s)
}

struct Real(String);
impl rustc_driver::Callbacks for Real {
  fn config(&mut self, config: &mut rustc_interface::Config) {
    flowistry_ifc::Callbacks.config(config);
    config.file_loader = Some(Box::new(session::StrLoader(self.0.clone())));
    config.psess_created = Some(Box::new(|p| p.dcx().make_silent()));
  }
  fn after_analysis(&mut self, c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'_>) -> rustc_driver::Compilation {
    // nothing is to be written here; that cargo gets what it needs is C27's part
    let _ = flowistry_ifc::Callbacks.after_analysis(c, tcx);
    rustc_driver::Compilation::Stop
  }
}

pub fn extern_args() -> Vec<String> {
  let dir = std::env::var("FLOWMC_TRAITS").unwrap_or_else(|_| ".".into());
  vec!["-L".into(), dir.clone(), "--extern".into(), format!("flowistry_ifc_traits={dir}/libflowistry_ifc_traits.rlib")]
}

type Span4 = (usize, usize, usize, usize);

#[derive(Debug)]
struct Report { src: Option<Span4>, dst: Option<Span4> }

fn span4(s: &str) -> Option<Span4> {
  let v: Vec<usize> = s.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
  (v.len() == 4).then(|| (v[0], v[1], v[2], v[3]))
}

/// What the checker printed: the flows it reports, and whether it said there are none.
fn parse(text: &str) -> Result<(Vec<Report>, bool), String> {
  let mut reports = vec![];
  let mut clean = false;
  let mut src = None;
  for l in text.lines() {
    if let Some(r) = l.strip_prefix("ERROR: insecure flow in gen.rs from data at ") {
      src = Some(span4(r));
    } else if let Some(r) = l.strip_prefix("to data at ") {
      let Some(s) = src.take() else { return Err(format!("out of order: {l}")) };
      reports.push(Report { src: s, dst: span4(r) });
    } else if l == "No security issues found!" {
      clean = true;
    } else if l.starts_with("ERROR") {
      return Err(format!("unexpected: {l}"));
    }
  }
  Ok((reports, clean))
}

/// Run the real checker on a whole crate. Err = it did not finish.
fn checker(src: &str) -> Result<(Vec<Report>, bool, bool), String> {
  let mut args = session::base_args();
  args.extend(extern_args());
  let (r, text) = captured(|| {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
      rustc_driver::catch_fatal_errors(|| rustc_driver::run_compiler(&args, &mut Real(src.to_string()))).is_ok()
    }))
  });
  if std::env::var("LOUD").is_ok() { eprintln!("{text}"); }
  match r {
    Err(e) => Err(e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into())),
    Ok(ran) => { let (r, c) = parse(&text)?; Ok((r, c, ran)) }
  }
}

fn named<'tcx>(tcx: TyCtxt<'tcx>, ty: rustc_middle::ty::Ty<'tcx>, names: &[&str]) -> bool {
  match ty.kind() {
    rustc_middle::ty::TyKind::Adt(d, _) => names.contains(&tcx.item_name(d.did()).as_str()),
    _ => false,
  }
}

/// Does the place lie in data of one of these types, and in which variable?
fn within<'tcx>(tcx: TyCtxt<'tcx>, body: &Body<'tcx>, p: Place<'tcx>, names: &[&str]) -> bool {
  (0 ..= p.projection.len()).any(|n| named(tcx, Place::make(p.local, &p.projection[.. n], tcx).ty(body.local_decls(), tcx).ty, names))
}

type Flows = BTreeMap<(Option<Local>, Option<Local>), String>;

/// The flows seen in executions: secure variable -> insecure variable (None: reached through a reference).
fn flows<'tcx>(p: &Prog<'tcx>, m: &BodyModel<'tcx>, out: &mut Out, cap: usize) -> Result<Flows, String> {
  let mut st = Stats::default();
  let diffs = dynamic_deps(m, cap, &mut st, true)?;
  out.add("executions", st.runs);
  out.add("transitions", st.steps);
  let body = m.body;
  let indirect = |p: Place| p.projection.iter().any(|e| matches!(e, ProjectionElem::Deref));
  let mut found = BTreeMap::new();
  for d in &diffs {
    let obs = m.at[&d.obs][d.place];
    if !within(p.tcx, body, obs, &["Out"]) { continue; }
    let srcs: Vec<Place> = match d.source {
      Source::Arg(l) => {
        let t = body.local_decls[l].ty.peel_refs();
        if named(p.tcx, t, &["Pw"]) { vec![Place::from(l)] } else { vec![] }
      }
      Source::Loc(loc) => {
        let data = &body.basic_blocks[loc.block];
        let dst = if loc.statement_index < data.statements.len() {
          match &data.statements[loc.statement_index].kind { StatementKind::Assign(a) => Some(a.0), _ => None }
        } else {
          match &data.terminator().kind { TerminatorKind::Call { destination, .. } => Some(*destination), _ => None }
        };
        dst.into_iter().filter(|d| within(p.tcx, body, *d, &["Pw"])).collect()
      }
    };
    for s in srcs {
      let sl = (!indirect(s)).then_some(s.local);
      let dl = (!indirect(obs)).then_some(obs.local);
      found.entry((sl, dl)).or_insert_with(|| format!("{:?} -> {:?} at {:?}: {}", s, obs, d.obs, d.witness));
    }
  }
  Ok(found)
}

/// Where a variable is declared, the way the checker prints it.
fn decl(tcx: TyCtxt, body: &Body, l: Local) -> Option<Span4> {
  let sm = tcx.sess.source_map();
  let sp = body.local_decls[l].source_info.span;
  let whole = body.span.source_callsite();
  let sp = if sp.lo() >= whole.lo() && sp.hi() <= whole.hi() || l.as_usize() <= body.arg_count { sp } else { sp.source_callsite() };
  let lines = sm.span_to_lines(sp).ok()?;
  let (a, b) = (lines.lines.first()?, lines.lines.last()?);
  Some((a.line_index + 1, a.start_col.0, b.line_index + 1, b.end_col.0))
}

/// Pairs of declarations for which the analysis knows a reason: the second depends on an argument or instruction which gave the first its value.
fn justified(p: &Prog) -> BTreeSet<(Option<Span4>, Option<Span4>)> {
  let body = &p.facts.body;
  let results = infoflow::compute_flow(p.tcx, p.body_id, p.facts);
  let an = &results.analysis;
  let locs = checks3::all_locations(body);
  let def = p.def.to_def_id();
  // dependencies at any point, and instructions which are a dependency right where they are
  let mut all: Vec<BTreeSet<String>> = vec![];
  let mut own: Vec<BTreeSet<String>> = vec![];
  for l in body.local_decls.indices() {
    let (mut a, mut o) = (BTreeSet::new(), BTreeSet::new());
    let pl = Place::from(l);
    let places: Vec<Place> = if l.as_usize() <= body.arg_count { pl.interior_paths(p.tcx, body, def).into_iter().collect() } else { pl.interior_places(p.tcx, body, def).into_iter().collect() };
    let arg = |l: Local| l.as_usize() > 0 && l.as_usize() <= body.arg_count;
    if arg(l) { o.insert(format!("{:?}", LocationOrArg::Arg(l))); }
    for pl in places {
      // data it refers to is its data
      for r in an.place_info.reachable_values(pl, Mutability::Not) {
        if arg(r.local) { o.insert(format!("{:?}", LocationOrArg::Arg(r.local))); }
      }
      for loc in &locs {
        for d in an.deps_for(results.state_at(*loc), pl).iter() {
          a.insert(format!("{d:?}"));
          if *d == LocationOrArg::Location(*loc) { o.insert(format!("{d:?}")); }
        }
      }
    }
    all.push(a);
    own.push(o);
  }
  let mut out = BTreeSet::new();
  for s in body.local_decls.indices() {
    for d in body.local_decls.indices() {
      if own[s.as_usize()].intersection(&all[d.as_usize()]).next().is_some() {
        out.insert((decl(p.tcx, body, s), decl(p.tcx, body, d)));
      }
    }
  }
  out
}

struct Known { fns: Vec<String>, flows: Vec<(Option<Span4>, Option<Span4>, String)>, justified: BTreeSet<(Option<Span4>, Option<Span4>)>, executable: bool }

fn put_viol(fam: &str, prelude: &str, src: &str, key: &str, detail: String) {
  println!("{}", json!({"t": "viol", "family": fam, "index": 0, "prelude": prelude, "src": src, "n": 1, "viols": [[key, detail]]}));
}

/// Which functions make the checker stop without an answer.
fn culprits(prelude: &str, fns: &[&String]) -> Vec<(String, String)> {
  let src = format!("{}{}", prelude, fns.iter().map(|s| s.as_str()).collect::<String>());
  match checker(&src) {
    Ok((_, _, true)) => vec![],
    Ok((_, _, false)) if fns.len() == 1 => vec![(fns[0].clone(), "the compiler stopped".into())],
    Err(e) if fns.len() == 1 => vec![(fns[0].clone(), e)],
    _ => {
      let (a, b) = fns.split_at(fns.len() / 2);
      let mut v = culprits(prelude, a);
      v.extend(culprits(prelude, b));
      v
    }
  }
}

/// which: "missed" (C14) or "cause" (C15)
pub fn explore(which: &str, fam: &progs::Family, fns: &[String], th: bool, counts: &mut BTreeMap<String, u64>) -> Option<Value> {
  let mut add = |k: &str, v: u64| *counts.entry(k.to_string()).or_insert(0) += v;
  let cap = if th { 128 } else { 32 };
  let zoo = !fam.whole.is_empty();
  // what should be said
  let src = format!("{}{}", fam.prelude, fns.concat());
  let mut known: BTreeMap<usize, Known> = BTreeMap::new();
  let base = fam.prelude.lines().count();
  let mut bad: BTreeSet<usize> = BTreeSet::new();
  session::with_bodies(&src, &extern_args(), |tcx, _| {
    for def in tcx.hir_body_owners() {
      let (def, body_id) = (&def, &tcx.hir_body_owned_by(def).id());
      let line = tcx.sess.source_map().lookup_char_pos(tcx.def_span(*def).lo()).line;
      if line <= base { continue; }
      let i = line - base - 1;
      let Some(facts) = session::borrowck_ok(tcx, *def) else { bad.insert(i); continue };
      let p = Prog { tcx, def: *def, body_id: *body_id, facts };
      let k = known.entry(i).or_insert_with(|| Known { fns: vec![], flows: vec![], justified: BTreeSet::new(), executable: false });
      k.fns.push(fns[i].clone());
      if which == "cause" { k.justified.extend(justified(&p)); }
      // what an async function does is in the body of its future
      let runs = if tcx.def_kind(*def) == rustc_hir::def::DefKind::Fn { !tcx.asyncness(def.to_def_id()).is_async() } else {
        tcx.def_path_str(def.to_def_id()).matches("{closure#0}").count() == 1 && tcx.asyncness(tcx.local_parent(*def).to_def_id()).is_async()
      };
      if which == "missed" && !zoo && runs {
        let m = BodyModel::new(tcx, facts);
        let mut o = Out::default();
        match flows(&p, &m, &mut o, cap) {
          Ok(f) => {
            k.executable = true;
            let d = |l: Option<Local>| l.and_then(|l| decl(tcx, &facts.body, l));
            k.flows = f.into_iter().map(|((s, t), w)| (d(s), d(t), w)).collect();
          }
          Err(e) => println!("{}", json!({"t": "unsup", "family": fam.name, "why": e})),
        }
        for (kk, v) in &o.counts { add(kk, *v); }
      }
    }
  });
  add("programs", fns.len() as u64);
  add("rejected_by_rustc", bad.len() as u64);
  let good: Vec<usize> = (0 .. fns.len()).filter(|i| !bad.contains(i)).collect();
  let good_fns: Vec<&String> = good.iter().map(|i| &fns[*i]).collect();
  // what is said
  let src = format!("{}{}", fam.prelude, good_fns.iter().map(|s| s.as_str()).collect::<String>());
  let (reports, clean) = match checker(&src) {
    Ok((r, c, true)) => (r, c),
    _ => {
      for (f, e) in culprits(fam.prelude, &good_fns).iter().take(5) { put_viol(fam.name, fam.prelude, f, "no answer", format!("the checker stops: {e}")); }
      return None;
    }
  };
  let mut said: BTreeMap<usize, Vec<Report>> = BTreeMap::new();
  let loose = reports.iter().any(|r| r.src.is_none() && r.dst.is_none());
  let any = !reports.is_empty();
  for r in reports {
    let Some(l) = r.dst.or(r.src).map(|s| s.0) else { continue };
    if l <= base { continue; }
    said.entry(l - base - 1).or_default().push(r);
  }
  if which == "cause" && any == clean {
    put_viol(fam.name, fam.prelude, &src[fam.prelude.len() ..], "verdict", format!("the checker reports {} flows and {} that there are none", if any { "some" } else { "no" }, if clean { "says" } else { "does not say" }));
  }
  let none = vec![];
  let mut sample = None;
  for (pos, i) in good.iter().enumerate() {
    let Some(k) = known.get(i) else { continue };
    let got = said.get(&pos).unwrap_or(&none);
    // positions in the smaller crate
    let back = |s: Option<Span4>| s.map(|s| (s.0 - pos + i, s.1, s.2 - pos + i, s.3));
    if which == "missed" && zoo {
      let leak = fns[*i].contains("/*leak*/");
      add("checked", 1); add("comparisons", 1); add("nontrivial", leak as u64); add("states", 1);
      if leak && got.is_empty() && !loose { put_viol(fam.name, fam.prelude, &fns[*i], "missed", "secure data reaches insecure data, but nothing is reported".into()); }
    } else if which == "missed" {
      if !k.executable { continue; }
      add("checked", 1); add("nontrivial", !k.flows.is_empty() as u64); add("comparisons", k.flows.len() as u64);
      for (s, d, w) in &k.flows {
        if !got.iter().any(|r| (s.is_none() || back(r.src) == *s) && (d.is_none() || back(r.dst) == *d)) {
          put_viol(fam.name, fam.prelude, &fns[*i], "missed", format!("the flow {w} is not reported"));
          break;
        }
      }
      if sample.is_none() && k.flows.len() > 1 { sample = Some(json!({"t": "sample", "family": fam.name, "src": fns[*i], "flow": k.flows[0].2})); }
    } else {
      add("checked", 1); add("nontrivial", !got.is_empty() as u64); add("evaluations", got.len() as u64 + 1);
      if zoo && !fns[*i].contains("/*leak*/") && !got.is_empty() {
        put_viol(fam.name, fam.prelude, &fns[*i], "cause", format!("nothing secure reaches anything insecure, but a flow is reported: {:?}", got[0]));
      }
      for r in got {
        if (r.src.is_some() && r.dst.is_some()) && !k.justified.contains(&(back(r.src), back(r.dst))) {
          put_viol(fam.name, fam.prelude, &fns[*i], "cause", format!("reported flow {r:?}: the second does not depend on anything that gives the first its value"));
          break;
        }
      }
      if sample.is_none() && !got.is_empty() { sample = Some(json!({"t": "sample", "family": fam.name, "src": fns[*i], "report": format!("{:?}", got[0])})); }
    }
  }
  if which == "cause" {
    // the functions about which nothing was said, alone
    let quiet: Vec<&String> = good.iter().enumerate().filter(|(pos, _)| !said.contains_key(pos)).map(|(_, i)| &fns[*i]).collect();
    if !quiet.is_empty() && !loose {
      add("evaluations", 1);
      let src = format!("{}{}", fam.prelude, quiet.iter().map(|s| s.as_str()).collect::<String>());
      match checker(&src) {
        Ok((r, true, true)) if r.is_empty() => {}
        x => put_viol(fam.name, fam.prelude, &quiet.iter().map(|s| s.as_str()).collect::<String>(), "verdict", format!("functions without flows make a crate with this verdict: {x:?}")),
      }
    }
    if zoo {
      // and every function on its own
      for i in &good {
        add("evaluations", 1);
        match checker(&format!("{}{}", fam.prelude, fns[*i])) {
          Ok((r, c, true)) if c == r.is_empty() && (r.is_empty() != fns[*i].contains("/*leak*/")) => {}
          x => put_viol(fam.name, fam.prelude, &fns[*i], "verdict", format!("alone in a crate: {x:?}")),
        }
      }
    }
  }
  sample
}

pub fn worker(which: &str, shard: usize, n: usize, th: bool) {
  let mut fams = progs::ifc_families();
  fams.push(progs::ifc_zoo());
  let only = std::env::var("FLOWMC_FAMILY").ok();
  for fam in fams {
    if let Some(o) = &only && o != fam.name { continue; }
    let progs = fam.programs(if th { fam.thorough } else { fam.quick });
    let fns: Vec<String> = progs.iter().enumerate().filter(|(i, _)| i % n == shard).map(|(i, b)| progs::function(&fam, i, b)).collect();
    let mut counts = BTreeMap::new();
    let t0 = std::time::Instant::now();
    let mut sample = None;
    for chunk in fns.chunks(200) {
      let s = explore(which, &fam, chunk, th, &mut counts);
      if sample.is_none() { sample = s; }
    }
    if let Some(s) = sample { println!("{s}"); }
    if which == "cause" && shard == 0 {
      match checker("pub fn f0(a: i32) -> i32 { a }") {
        Ok((r, true, true)) if r.is_empty() => {}
        x => put_viol(fam.name, "", "pub fn f0(a: i32) -> i32 { a }", "verdict", format!("a crate without secure or insecure data: {x:?}")),
      }
    }
    println!("{}", json!({"t": "counts", "family": fam.name, "counts": counts, "secs": t0.elapsed().as_secs_f64()}));
  }
}

/// Replay one file: a prelude and one function per line, named f<N>.
pub fn file(which: &str, src: &str) {
  let at = src.find("pub fn f").or(src.find("fn f")).unwrap_or(0);
  let prelude: &'static str = Box::leak(src[.. at].to_string().into_boxed_str());
  let mut fam = progs::ifc_families().remove(0);
  fam.prelude = prelude;
  let fns: Vec<String> = src[at ..].lines().map(|l| format!("{l}\n")).collect();
  let mut counts = BTreeMap::new();
  explore(which, &fam, &fns, true, &mut counts);
  println!("{counts:?}");
}
