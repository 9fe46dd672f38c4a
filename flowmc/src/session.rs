//! Running rustc in-process on generated source text.
use std::path::Path;
use std::sync::Arc;

use rustc_borrowck::consumers::BodyWithBorrowckFacts;
use rustc_hir::def_id::LocalDefId;
use rustc_hir::BodyId;
use rustc_middle::ty::TyCtxt;
use rustc_span::source_map::FileLoader;
use rustc_utils::mir::borrowck_facts::{self, get_body_with_borrowck_facts};

pub struct StrLoader(pub String);
impl FileLoader for StrLoader {
  fn file_exists(&self, _: &Path) -> bool { true }
  fn read_file(&self, _: &Path) -> std::io::Result<String> { Ok(self.0.clone()) }
  fn read_binary_file(&self, p: &Path) -> std::io::Result<Arc<[u8]>> { Ok(std::fs::read(p)?.into()) }
}

struct Cb<F> { src: String, f: Option<F> }
impl<F> rustc_driver::Callbacks for Cb<F>
where F: for<'tcx> FnOnce(TyCtxt<'tcx>, &[(String, LocalDefId, BodyId)]) + Send {
  fn config(&mut self, config: &mut rustc_interface::Config) {
    borrowck_facts::enable_mir_simplification();
    config.override_queries = Some(borrowck_facts::override_queries);
    config.file_loader = Some(Box::new(StrLoader(self.src.clone())));
    if std::env::var("LOUD").is_err() {
      config.psess_created = Some(Box::new(|p| p.dcx().make_silent()));
    }
  }
  fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
    let mut items = vec![];
    for id in tcx.hir_body_owners() {
      if let Some(body) = tcx.hir_maybe_body_owned_by(id) {
        let name = tcx.def_path_str(id.to_def_id());
        items.push((name, id, body.id()));
      }
    }
    (self.f.take().unwrap())(tcx, &items);
    rustc_driver::Compilation::Stop
  }
}

pub fn sysroot() -> String {
  std::env::var("FLOWMC_SYSROOT").unwrap_or_else(|_| {
    let o = std::process::Command::new("rustc").args(["--print", "sysroot"]).output().unwrap();
    String::from_utf8(o.stdout).unwrap().trim().to_string()
  })
}

pub fn base_args() -> Vec<String> {
  let s = sysroot();
  ["rustc", "gen.rs", "--crate-name", "gen", "--crate-type", "lib", "--edition=2021", "-Zidentify-regions", "-Zmir-opt-level=0",
   "-Zmaximal-hir-to-mir-coverage", "-A", "warnings", "--sysroot", &s].iter().map(|s| s.to_string()).collect()
}

pub fn with_bodies<F>(src: &str, extra: &[String], f: F) -> bool
where F: for<'tcx> FnOnce(TyCtxt<'tcx>, &[(String, LocalDefId, BodyId)]) + Send {
  let mut cb = Cb { src: src.to_string(), f: Some(f) };
  let mut args = base_args();
  args.extend(extra.iter().cloned());
  rustc_driver::catch_fatal_errors(|| rustc_driver::run_compiler(&args, &mut cb)).is_ok()
}

/// Type-checks and borrow-checks one body; None if it is not a well-formed program.
pub fn borrowck_ok<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId) -> Option<&'tcx BodyWithBorrowckFacts<'tcx>> {
  let root = tcx.typeck_root_def_id(def.to_def_id()).expect_local();
  if tcx.typeck(root).tainted_by_errors.is_some() { return None; }
  if tcx.mir_borrowck(root).is_err() { return None; }
  let f = get_body_with_borrowck_facts(tcx, def);
  if f.body.tainted_by_errors.is_some() { return None; }
  Some(f)
}
