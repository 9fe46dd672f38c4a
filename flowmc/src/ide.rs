//! Sessions of the IDE plugin: one request, one rustc run, one answer on stdout.
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};

use clap::Parser;
use flowistry::infoflow::mutation::{ModularMutationVisitor, Mutation};
use flowistry::infoflow::{self, Direction};
use flowistry_ide::FlowistryPlugin;
use rustc_middle::mir::visit::Visitor;
use rustc_middle::mir::*;
use rustc_middle::ty::TyCtxt;
use rustc_plugin::RustcPlugin;
use rustc_span::Span;
use rustc_utils::mir::borrowck_facts::get_body_with_borrowck_facts;
use rustc_utils::mir::location_or_arg::LocationOrArg;
use rustc_utils::source_map::spanner::{EnclosingHirSpans, Spanner};
use serde_json::{json, Value};

use crate::checks3::MODES;
use crate::progs;
use crate::session;

unsafe extern "C" {
  fn dup(a: i32) -> i32;
  fn dup2(a: i32, b: i32) -> i32;
  fn close(a: i32) -> i32;
}

/// Everything written to stdout while `f` runs.
fn captured<T>(f: impl FnOnce() -> T) -> (T, Vec<u8>) {
  use std::os::fd::AsRawFd;
  std::io::stdout().flush().unwrap();
  let path = format!("ide.{}", std::process::id());
  let file = std::fs::OpenOptions::new().create(true).truncate(true).read(true).write(true).open(&path).unwrap();
  let saved = unsafe { let s = dup(1); dup2(file.as_raw_fd(), 1); s };
  let r = f();
  std::io::stdout().flush().unwrap();
  unsafe { dup2(saved, 1); close(saved); }
  let mut s = vec![];
  std::fs::File::open(&path).unwrap().read_to_end(&mut s).unwrap();
  let _ = std::fs::remove_file(&path);
  (r, s)
}

#[derive(Debug, Clone, PartialEq)]
pub enum Answer {
  /// the plugin failed and printed nothing: the build error is what the user sees
  BuildError,
  Json(Value),
  Panic(String),
  Garbage(String),
  BadArgs(String),
}

/// One request, the way `cargo flowistry` and `flowistry-driver` handle it.
pub fn request(file: &str, cmdline: &[&str]) -> Answer {
  match raw(file, cmdline) {
    Err(a) => a,
    Ok(out) => match decode(&out) {
      Ok(v) => Answer::Json(v),
      Err(e) => Answer::Garbage(e),
    },
  }
}

/// What is printed.
fn raw(file: &str, cmdline: &[&str]) -> Result<Vec<u8>, Answer> {
  let mut argv = vec!["flowistry"];
  argv.extend(cmdline);
  let args = match <<FlowistryPlugin as RustcPlugin>::Args as Parser>::try_parse_from(&argv) {
    Ok(a) => a,
    Err(e) => return Err(Answer::BadArgs(e.to_string())),
  };
  let args = serde_json::from_str(&serde_json::to_string(&args).unwrap()).unwrap();
  let s = session::sysroot();
  let compiler_args: Vec<String> = ["rustc", file, "--crate-name", "gen", "--crate-type", "lib", "--edition=2021", "--emit=metadata", "--sysroot", &s, "--error-format=json"]
    .iter().map(|s| s.to_string()).collect();
  let (r, out) = captured(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| FlowistryPlugin.run(compiler_args, args))));
  match r {
    Err(e) => Err(Answer::Panic(e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into()))),
    Ok(Err(_)) if out.is_empty() => Err(Answer::BuildError),
    Ok(Err(_)) => Err(Answer::Garbage(format!("failed, but printed {} bytes", out.len()))),
    Ok(Ok(())) => Ok(out),
  }
}

fn decode(out: &[u8]) -> Result<Value, String> {
  use base64::Engine;
  let gz = base64::engine::general_purpose::STANDARD.decode(out).map_err(|e| format!("not base64: {e}: {:?}", String::from_utf8_lossy(out)))?;
  let mut s = String::new();
  flate2::read::GzDecoder::new(&gz[..]).read_to_string(&mut s).map_err(|e| format!("not gzip: {e}"))?;
  serde_json::from_str(&s).map_err(|e| format!("not json: {e}"))
}

pub type Chars = BTreeSet<(usize, usize)>;

/// The non-blank characters of a text between two positions (0-based line and column).
fn chars_between(text: &str, a: (usize, usize), b: (usize, usize)) -> Chars {
  let mut out = Chars::new();
  for (l, line) in text.split('\n').enumerate() {
    if l < a.0 || l > b.0 { continue; }
    for (c, ch) in line.chars().enumerate() {
      if !ch.is_whitespace() && (l, c) >= a && (l, c) < b { out.insert((l, c)); }
    }
  }
  out
}

fn pos(v: &Value) -> Option<(usize, usize)> { Some((v["line"].as_u64()? as usize, v["column"].as_u64()? as usize)) }
type Range = ((usize, usize), (usize, usize));
fn range(v: &Value) -> Option<Range> { Some((pos(&v["start"])?, pos(&v["end"])?)) }
fn ranges(v: &Value) -> Option<Vec<Range>> { v.as_array()?.iter().map(range).collect() }
fn union(text: &str, rs: &[Range]) -> Chars { rs.iter().flat_map(|r| chars_between(text, r.0, r.1)).collect() }

fn char_pos(tcx: TyCtxt, p: rustc_span::BytePos) -> (usize, usize) {
  let l = tcx.sess.source_map().lookup_char_pos(p);
  (l.line - 1, l.col.0)
}
fn span_range(tcx: TyCtxt, s: Span) -> Range { (char_pos(tcx, s.lo()), char_pos(tcx, s.hi())) }

/// What should be said about one span of a function.
#[derive(Debug, Clone)]
struct Group { range: Range, slice: Chars, direct_min: Vec<Range>, direct_max: Chars }
#[derive(Debug, Clone)]
struct Expected { groups: Vec<Group>, item: Range, containers: Chars }

fn expected<'tcx>(tcx: TyCtxt<'tcx>, body_id: rustc_hir::BodyId, text: &str) -> Expected {
  let def = tcx.hir_body_owner_def_id(body_id);
  let facts = get_body_with_borrowck_facts(tcx, def);
  let body = &facts.body;
  let results = infoflow::compute_flow(tcx, body_id, facts);
  let spanner = Spanner::new(tcx, body_id, body);
  let mut groups: Vec<(rustc_span::SpanData, Vec<(Place<'tcx>, LocationOrArg)>)> = vec![];
  for m in spanner.mir_span_tree.iter() {
    let ts = m.locations.iter().map(|l| (m.place, *l));
    match groups.iter_mut().find(|(s, _)| *s == m.span) {
      Some((_, v)) => v.extend(ts),
      None => groups.push((m.span, ts.collect())),
    }
  }
  let on = |l: LocationOrArg, how| -> Chars {
    spanner.location_to_spans(l, body, how).into_iter().flat_map(|s| { let r = span_range(tcx, s); chars_between(text, r.0, r.1) }).collect()
  };
  // which instructions mention which variables
  let mut touched: Vec<(Location, Vec<Place<'tcx>>)> = vec![];
  ModularMutationVisitor::new(&results.analysis.place_info, |loc, ms: Vec<Mutation<'tcx>>| {
    let mut ps = vec![];
    for m in ms { ps.push(m.mutated); ps.extend(m.inputs); }
    touched.push((loc, ps));
  }).visit_body(body);
  let info = &results.analysis.place_info;
  let mut one: BTreeMap<String, Chars> = BTreeMap::new();
  let groups = groups.into_iter().map(|(span, targets)| {
    let mut slice = Chars::new();
    let mut direct_min = vec![];
    let mut direct_max = Chars::new();
    let mut ts = targets.clone();
    ts.sort_by_key(|t| format!("{t:?}"));
    ts.dedup();
    for (p, l) in &ts {
      slice.extend(one.entry(format!("{p:?}@{l:?}")).or_insert_with(|| {
        let mut c = Chars::new();
        for dir in [Direction::Forward, Direction::Backward] {
          for d in infoflow::compute_dependencies(&results, vec![vec![(*p, *l)]], dir).remove(0).iter() { c.extend(on(*d, EnclosingHirSpans::OuterOnly)); }
        }
        c
      }).iter().copied());
      // an instruction which mentions the place itself is a direct influence, one which has nothing to do with anything reachable from it is not
      let reach: BTreeSet<Local> = info.reachable_values(*p, Mutability::Not).iter().chain(info.aliases(*p)).map(|a| a.local).collect();
      for (loc, ps) in &touched {
        if ps.contains(p) {
          direct_min.extend(spanner.location_to_spans(LocationOrArg::Location(*loc), body, EnclosingHirSpans::None).into_iter().map(|s| span_range(tcx, s)).filter(|r| r.0.0 == r.1.0));
        }
        if ps.iter().any(|q| info.reachable_values(*q, Mutability::Not).iter().chain(info.aliases(*q)).any(|a| reach.contains(&a.local))) { direct_max.extend(on(LocationOrArg::Location(*loc), EnclosingHirSpans::None)); }
      }
    }
    Group { range: span_range(tcx, span.span()), slice, direct_min, direct_max }
  }).collect();
  let mut containers = Chars::new();
  let item = span_range(tcx, tcx.hir_span_with_body(tcx.hir_body_owner(body_id)));
  let hb = tcx.hir_body(body_id);
  for s in hb.params.iter().map(|p| p.span).chain([hb.value.span]) { let r = span_range(tcx, s); containers.extend(chars_between(text, r.0, r.1)); }
  Expected { groups, item, containers }
}

/// Bipartite matching of answers with expectations.
fn augment(a: usize, fits: &[Vec<usize>], used: &mut Vec<Option<usize>>, seen: &mut BTreeSet<usize>) -> bool {
  for &g in &fits[a] {
    if seen.insert(g) && (used[g].is_none() || augment(used[g].unwrap(), fits, used, seen)) { used[g] = Some(a); return true; }
  }
  false
}

fn compare(text: &str, v: &Value, e: &Expected) -> Result<u64, String> {
  let ok = v.get("Ok").ok_or_else(|| format!("no answer: {v}"))?;
  let entries = ok["place_info"].as_array().ok_or("no place_info")?;
  let containers = ranges(&ok["containers"]).ok_or("bad containers")?;
  let cs = union(text, &containers);
  if let Some(c) = e.containers.difference(&cs).next() { return Err(format!("the character at {c:?} of the function is in no container")); }
  let inside = |c: &(usize, usize)| *c >= e.item.0 && *c < e.item.1;
  if let Some(c) = cs.iter().find(|c| !inside(c)) { return Err(format!("a container reaches outside of the function, to {c:?}")); }
  let mut used: Vec<Option<usize>> = vec![None; e.groups.len()];
  let mut answers: Vec<Vec<usize>> = vec![];
  let show = |c: &Chars| -> String {
    text.split('\n').enumerate().map(|(l, line)| line.chars().enumerate().map(|(k, ch)| if c.contains(&(l, k)) || ch == ' ' && c.contains(&(l, k + 1)) && k > 0 && c.contains(&(l, k - 1)) { ch } else { ' ' }).collect::<String>()).map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect::<Vec<_>>().join(" | ")
  };
  let mut n = 0;
  for en in entries {
    let r = range(&en["range"]).ok_or("bad range")?;
    let rs = ranges(&en["ranges"]).ok_or("bad ranges")?;
    if union(text, &rs) != chars_between(text, r.0, r.1) { return Err(format!("the ranges of {r:?} are not the range without its blanks: {rs:?}")); }
    for x in &rs { if x.0.0 != x.1.0 { return Err(format!("the range {x:?} spans lines")); } }
    let slices = ranges(&en["slice"]).ok_or("bad slice")?;
    let slice = union(text, &slices);
    let direct = union(text, &ranges(&en["direct_influence"]).ok_or("bad direct_influence")?);
    if let Some(c) = slice.iter().find(|c| !inside(c)) { return Err(format!("the slice of {r:?} reaches outside of the function, to {c:?}")); }
    if let Some(c) = direct.difference(&slice).next() { return Err(format!("the direct influence of {r:?} is not in its slice: {c:?}")); }
    let mut why = format!("there is nothing selectable at {r:?} ({})", show(&chars_between(text, r.0, r.1)));
    let mut fits = vec![];
    for (i, g) in e.groups.iter().enumerate() {
      if g.range != r { continue; }
      if g.slice != slice {
        why = format!("selecting `{}` {r:?} shows `{}`, related is `{}`", show(&chars_between(text, r.0, r.1)), show(&slice), show(&g.slice));
      } else if let Some(c) = g.direct_min.iter().filter(|r| slices.iter().any(|x| x.0 <= r.0 && r.1 <= x.1)).flat_map(|r| chars_between(text, r.0, r.1)).find(|c| !direct.contains(c)) {
        why = format!("selecting `{}` {r:?} does not emphasize {c:?}, where it is used or changed; only `{}`", show(&chars_between(text, r.0, r.1)), show(&direct));
      } else if let Some(c) = direct.difference(&g.direct_max).next() {
        why = format!("selecting `{}` {r:?} emphasizes {c:?}, which has nothing to do with it", show(&chars_between(text, r.0, r.1)));
      } else {
        fits.push(i);
      }
    }
    // several spans (of macros) can be at one range: match them up
    answers.push(fits);
    if !augment(answers.len() - 1, &answers, &mut used, &mut BTreeSet::new()) { return Err(why); }
    n += slice.len() as u64;
  }
  if let Some(i) = used.iter().position(|u| u.is_none()) { return Err(format!("nothing is said about {:?} (`{}`)", e.groups[i].range, show(&chars_between(text, e.groups[i].range.0, e.groups[i].range.1)))); }
  Ok(n)
}

/// The same program over several lines.
fn spread(body: &str) -> String { body.replace("; ", ";\n    ").replace("{ ", "{\n  ").replace("} else", "}\n  else") }

fn viol(fam: &str, src: &str, key: &str, detail: String) {
  println!("{}", json!({"t": "viol", "family": fam, "index": 0, "prelude": "", "src": src, "n": 1, "viols": [[key, detail]]}));
}

fn scratch() -> String { format!("ide{}.rs", std::process::id()) }

const MODE_FLAGS: &[&[&str]] = &[
  &[], &["--mutability-mode", "IgnoreMut"], &["--pointer-mode", "Conservative"], &["--mutability-mode", "IgnoreMut", "--pointer-mode", "Conservative"],
  &["--context-mode", "Recurse"], &["--context-mode", "Recurse", "--mutability-mode", "IgnoreMut"], &["--context-mode", "Recurse", "--pointer-mode", "Conservative"],
  &["--context-mode", "Recurse", "--mutability-mode", "IgnoreMut", "--pointer-mode", "Conservative"],
];

/// C16: what is shown for every selectable span of a function is what the analysis says about it.
pub fn focus_worker(shard: usize, n: usize, th: bool) {
  let file = scratch();
  let only = std::env::var("FLOWMC_FAMILY").ok();
  for fam in progs::families() {
    if ["rawptr", "zoo", "probes"].contains(&fam.name) || fam.name.starts_with("worlds") { continue; }
    if let Some(o) = &only && o != fam.name { continue; }
    let progs = fam.programs(if th { 2 } else { 1 });
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let t0 = std::time::Instant::now();
    let mut sampled = false;
    for (i, b) in progs.iter().enumerate() {
      if i % n != shard { continue; }
      let mut add = |k: &str, v: u64| *counts.entry(k.to_string()).or_insert(0) += v;
      add("programs", 1);
      let f = spread(&progs::function(&fam, i, b));
      let text = format!("{}\n{}", fam.prelude, f);
      let line = fam.prelude.matches('\n').count() + 1;
      std::fs::write(&file, &text).unwrap();
      let _w = crate::run::Watch::start("", &text);
      // quick: the default mode and one other; thorough: all
      let modes: Vec<usize> = if th && i < 400 { (0 .. 8).collect() } else { vec![0, 1 + i / n % 7] };
      let mut exp: Vec<(usize, (usize, usize), Expected)> = vec![];
      session::with_bodies(&text, &[], |tcx, items| {
        let inner = format!("f{i}::");
        let spans: Vec<Range> = items.iter().filter(|(n, ..)| n.starts_with(&inner)).map(|(_, _, b)| span_range(tcx, tcx.hir_span_with_body(tcx.hir_body_owner(*b)))).collect();
        for (name, def, body_id) in items {
          if *name != format!("f{i}") && !name.starts_with(&inner) { continue; }
          if session::borrowck_ok(tcx, *def).is_none() { continue; }
          if *name == format!("f{i}") {
            for m in &modes { exp.push((*m, (line, 8), crate::checks3::in_mode(MODES[*m], || expected(tcx, *body_id, &text)))); }
          } else {
            // closures and async blocks: ask at a position which is in no smaller one
            let r = span_range(tcx, tcx.hir_span_with_body(tcx.hir_body_owner(*body_id)));
            let at = chars_between(&text, r.0, r.1).into_iter().filter(|c| *c > r.0).find(|c| !spans.iter().any(|s| *s != r && r.0 <= s.0 && s.1 <= r.1 && s.0 <= *c && *c <= s.1));
            if let Some(at) = at { exp.push((modes[0], at, expected(tcx, *body_id, &text))); }
          }
        }
      });
      if exp.is_empty() { add("rejected_by_rustc", 1); continue; }
      add("checked", 1);
      for (m, at, e) in exp {
        let (l, c) = (at.0.to_string(), at.1.to_string());
        let mut args = MODE_FLAGS[m].to_vec();
        args.extend(["focus", file.as_str(), &l, &c]);
        let r = match request(&file, &args) {
          Answer::Json(v) => compare(&text, &v, &e),
          x => Err(format!("{x:?}")),
        };
        match r {
          Ok(k) => { add("evaluations", e.groups.len() as u64); add("characters", k); if m == modes[0] { add("nontrivial", (e.groups.len() > 1) as u64); } }
          Err(why) => { viol(fam.name, &text, &format!("focus {:?} at {at:?}", MODE_FLAGS[m]), why); break; }
        }
      }
      if !sampled { sampled = true; println!("{}", json!({"t": "sample", "family": fam.name, "src": f})); }
    }
    println!("{}", json!({"t": "counts", "family": fam.name, "counts": counts, "secs": t0.elapsed().as_secs_f64()}));
  }
  let _ = std::fs::remove_file(&file);
}

// ---------------------------------------------------------------------------------------------
// C17: which function a position belongs to.  Every function in these files is between `/*[*/`
// and `/*]*/`, so that the expected answer is read off the text.

/// Constructs which may contain items.
const ITEMS: &[&str] = &[
  "/*[*/fn n$(a: i32) -> i32 { @ a }/*]*/",
  "pub struct S$; impl S$ { /*[*/pub fn m(&self, a: i32) -> i32 { @ a }/*]*/ }",
  "pub trait T$ { fn r(&self); /*[*/fn d(&self) -> i32 { @ 1 }/*]*/ }",
  "pub const K$: i32 = { @ 0 };",
  "mod m$ { ~ }",
  "mk!(g$);",
  "pass! { /*[*/fn p$() { @ }/*]*/ }",
  "/*[*/async fn y$(a: i32) -> i32 { @ a }/*]*/",
  "/*[*/pub unsafe extern \"C\" fn x$<T: Copy>(t: T, _u: T) -> T where T: Sized { @ t }/*]*/",
  "/// documented\n#[inline]\n#[allow(dead_code)]\n/*[*/pub(crate) const fn c$() -> [i32; 2] { @ [1, 2] }/*]*/",
  "#[derive(Clone, Debug)] pub struct D$(pub i32);",
  "pub static Q$: fn(i32) -> i32 = |a| a + 1;",
];
/// Constructs which may be in functions.
const STMTS: &[&str] = &[
  "let f$ = /*[*/|b: i32| b + 1/*]*/;",
  "let f$ = /*[*/|b: i32, c: i32| -> i32 { @ b + c }/*]*/;",
  "let f$ = /*[*/move |b: i32| { /*[*/move |c: i32| b + c/*]*/ }/*]*/;",
  "let _s$ = \"é→🦀 b\"; { @ }",
  "id!({ @ });",
  "println!(\"{}\", /*[*/(|z: i32| z)/*]*/(2));",
  "while false { @ }",
];

/// One construct and what is in it.
#[derive(Clone)]
struct Part { shape: &'static str, inner: Vec<Part> }

fn parts(size: usize, stmts: bool) -> Vec<(usize, Part)> {
  let mut out = vec![];
  if size == 0 { return out; }
  for shape in ITEMS.iter().chain(if stmts { STMTS } else { &[] }) {
    if shape.contains('@') || shape.contains('~') {
      for (k, inner) in sequences(size - 1, shape.contains('@')) { out.push((k + 1, Part { shape, inner })); }
    } else {
      out.push((1, Part { shape, inner: vec![] }));
    }
  }
  out
}
fn sequences(size: usize, stmts: bool) -> Vec<(usize, Vec<Part>)> {
  let mut out = vec![(0, vec![])];
  if size == 0 { return out; }
  let ps = parts(size, stmts);
  let mut i = 0;
  while i < out.len() {
    let (used, seq): (usize, Vec<Part>) = out[i].clone();
    for (k, p) in ps.iter().filter(|(k, _)| used + k <= size) {
      let mut s = seq.clone();
      s.push(p.clone());
      out.push((used + k, s));
    }
    i += 1;
  }
  out
}
/// Constants are not considered to be functions, nor are closures in them.
fn render(p: &[Part], n: &mut usize, sep: &str, constant: bool) -> String {
  p.iter().map(|p| {
    *n += 1;
    let mut t = p.shape.replace('$', &n.to_string());
    let stmt = STMTS.contains(&p.shape);
    if stmt && constant { t = t.replace("/*[*/", "").replace("/*]*/", ""); }
    let constant = stmt && constant || p.shape.contains(" K$:");
    match t.split_once(['@', '~']) {
      Some((a, b)) => format!("{a}{sep}{}{sep}{b}", render(&p.inner, n, sep, constant)),
      None => t,
    }
  }).collect::<Vec<_>>().join(sep)
}
const MACROS: &str = "macro_rules! mk { ($i:ident) => { fn $i() -> i32 { 3 } } }\nmacro_rules! pass { ($($t:tt)*) => { $($t)* } }\nmacro_rules! id { ($e:expr) => { $e } }\n";

/// All files of at most `size` constructs, in one line, in several lines, with tabs and carriage returns.
fn files(size: usize) -> Vec<String> {
  let mut out = vec![];
  for (k, p) in sequences(size, false) {
    if k == 0 { continue; }
    for sep in [" ", "\n", "\r\n\t"] {
      out.push(format!("{}{sep}{}{sep}", if sep.starts_with('\r') { MACROS.replace('\n', "\r\n") } else { MACROS.to_string() }, render(&p, &mut 0, sep, false)));
    }
  }
  out
}

/// The functions of a file: between the markers.  Columns are in characters (C26: the extension converts them to the editor's).
fn marked(text: &str) -> Vec<Range> {
  let mut open = vec![];
  let mut out = vec![];
  for (l, line) in text.split('\n').enumerate() {
    let cs: Vec<char> = line.chars().collect();
    for c in 0 .. cs.len() {
      if cs[c ..].starts_with(&['/', '*', '[', '*', '/']) { open.push((l, c + 5)); }
      if cs[c ..].starts_with(&['/', '*', ']', '*', '/']) { out.push((open.pop().unwrap(), (l, c))); }
    }
  }
  out
}
fn innermost(rs: &[Range], p: (usize, usize)) -> Option<Range> {
  rs.iter().filter(|r| r.0 <= p && p <= r.1).max_by_key(|r| r.0).copied()
}

/// C17: every position of every file leads to the innermost function around it.
fn positions(file: &str, text: &str, step: usize, add: &mut dyn FnMut(&str, u64)) -> Option<(String, String)> {
  std::fs::write(file, text).unwrap();
  positions_in(file, file, text, step, add)
}
/// The same for one file of the crate whose main file is `root`.
fn positions_in(root: &str, file: &str, text: &str, step: usize, add: &mut dyn FnMut(&str, u64)) -> Option<(String, String)> {
  let fns = marked(text);
  // the functions of the file
  let got = match request(root, &["spans", file]) {
    Answer::Json(v) => match ranges(&v["Ok"]["spans"]) { Some(r) => r, None => return Some(("spans".into(), format!("no spans: {v}"))) },
    Answer::BuildError => { add("rejected_by_rustc", 1); return None }
    x => return Some(("spans".into(), format!("{x:?}"))),
  };
  add("checked", 1);
  let (mut a, mut b) = (got, fns.clone());
  a.sort(); b.sort();
  // the body of an async function is a function of its own
  a.dedup();
  add("evaluations", 1);
  let loose = |r: &Range| b.iter().any(|x| x.0 <= r.0 && r.1 <= x.1);
  if let Some(r) = b.iter().find(|r| !a.contains(r)) { return Some(("spans".into(), format!("the function at {r:?} is not listed"))); }
  if let Some(r) = a.iter().find(|r| !loose(r)) { return Some(("spans".into(), format!("{r:?} is listed, but is not a function"))); }
  let mut inside = 0;
  // the line after the last line break is a probe of its own
  let text = text.strip_suffix('\n').unwrap_or(text);
  for (l, line) in text.split('\n').enumerate() {
    if l < 3 { continue; }
    // the carriage return is not a column
    let cols = line.trim_end_matches('\r').chars().count();
    let want_at = |c| innermost(&fns, (l, c));
    for c in 0 ..= cols {
      // where nothing changes, look at some positions only
      let edge = c == 0 || c == cols || want_at(c) != want_at(c - 1) || want_at(c) != want_at(c + 1);
      if !edge && (l + c) % step != 0 { continue; }
      let want = want_at(c);
      inside += want.is_some() as u64;
      add("evaluations", 1);
      add("positions", 1);
      let at = format!("position {l}:{c}");
      match (request(root, &["focus", file, &l.to_string(), &c.to_string()]), want) {
        (Answer::Json(v), None) if v["Err"]["type"] == "AnalysisError" => {}
        (Answer::Json(v), Some(w)) if v.get("Ok").is_some() => {
          let Some(cs) = ranges(&v["Ok"]["containers"]) else { return Some((at, format!("bad containers in {v}"))) };
          if cs.is_empty() { return Some((at, "no containers".into())); }
          let mid = (cs.iter().map(|r| r.0).min().unwrap(), cs.iter().map(|r| r.1).max().unwrap());
          let f = fns.iter().filter(|r| r.0 <= mid.0 && mid.1 <= r.1).max_by_key(|r| r.0);
          if f != Some(&w) { return Some((at, format!("leads to {f:?}, the innermost function is {w:?}"))); }
        }
        (x, w) => return Some((at, format!("the innermost function is {w:?}, the answer {x:?}"))),
      }
    }
  }
  add("nontrivial", (inside > 0) as u64);
  None
}

pub fn positions_worker(shard: usize, n: usize, th: bool) {
  let file = scratch();
  for (fam, size, step) in if th { vec![("one", 1, 1), ("two", 2, 1), ("three", 3, 40)] } else { vec![("one", 1, 1), ("two", 2, 12)] } {
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let t0 = std::time::Instant::now();
    let mut sampled = false;
    let all = files(size);
    for (i, text) in all.iter().enumerate() {
      if i / 3 % n != shard || size == 2 && !th && i % 3 != i / 3 / n % 3 { continue; }
      let mut add = |k: &str, v: u64| *counts.entry(k.to_string()).or_insert(0) += v;
      add("programs", 1);
      let _w = crate::run::Watch::start("", text);
      if let Some((k, d)) = positions(&file, text, step, &mut add) { viol(fam, text, &k, d); }
      if !sampled && marked(text).len() > 1 { sampled = true; println!("{}", json!({"t": "sample", "family": fam, "src": text})); }
    }
    println!("{}", json!({"t": "counts", "family": fam, "counts": counts, "secs": t0.elapsed().as_secs_f64()}));
  }
  // crates of three files, whose names come before and after that of the main file
  let texts = [
    "/*[*/pub fn one(a: i32) -> i32 { a }/*]*/\n",
    "\n\n\n/*[*/pub fn two(a: i32) -> i32 {\n  let c = /*[*/|b: i32| b + a/*]*/;\n  c(1) }/*]*/\n",
    "pub const NOTHING: i32 = 1;\n",
    "pub struct S;\nimpl S { /*[*/pub fn m(&self) {}/*]*/\n/*[*/pub fn n(&self, f: fn(i32)) { f(/*not*/1) }/*]*/ }\n",
  ];
  let dir = format!("crate{}", std::process::id());
  let _ = std::fs::create_dir(&dir);
  let mut counts: BTreeMap<String, u64> = BTreeMap::new();
  let t0 = std::time::Instant::now();
  for k in 0 .. 64 {
    if k % n != shard { continue; }
    let names = ["m.rs", "a.rs", "z.rs"].map(|n| format!("{dir}/{n}"));
    let body = [format!("mod a;\nmod z;\n#[cfg(any())] mod absent;\n{}", texts[k % 4]), texts[k / 4 % 4].to_string(), texts[k / 16].to_string()].map(|t| format!("// 1\n// 2\n// 3\n{t}"));
    for (f, t) in names.iter().zip(&body) { std::fs::write(f, t).unwrap(); }
    for (f, t) in names.iter().zip(&body) {
      let mut add = |k: &str, v: u64| *counts.entry(k.to_string()).or_insert(0) += v;
      add("programs", 1);
      let _w = crate::run::Watch::start("", t);
      if let Some((key, d)) = positions_in(&names[0], f, t, 3, &mut add) {
        viol("crates", &body.join("// ---- next file\n"), &format!("{} {key}", &f[dir.len() + 1 ..]), d);
      }
    }
  }
  let _ = std::fs::remove_dir_all(&dir);
  println!("{}", json!({"t": "counts", "family": "crates", "counts": counts, "secs": t0.elapsed().as_secs_f64()}));
  if shard == 0 {
    let text = "fn f() {}\n";
    std::fs::write(&file, text).unwrap();
    match request(&file, &["focus", &file, "1", "0"]) {
      Answer::Json(v) if v["Err"]["type"] == "AnalysisError" => {}
      x => viol("last line", text, "position 1:0", format!("no function is around it, the answer is {x:?}")),
    }
  }
  let _ = std::fs::remove_file(&file);
}


// ---------------------------------------------------------------------------------------------
// C18: every request has exactly one answer, of the right kind.

const GOOD: &str = "mod other;\npub const K: i32 = 1;\npub fn f(a: i32) -> i32 {\n  let b = a;\n  b + K\n}\n";
const OTHER: &str = "// here\npub fn g(a: &mut i32) {\n  *a = 1;\n}\n";
/// Texts of the crate's main file, and whether they build.
const CRATES: &[(&str, Option<&str>, bool)] = &[
  ("good", Some(GOOD), true),
  ("warnings", Some("mod other;\n#[warn(unused)]\nuse std::fmt::Write;\npub fn f(a: i32) -> i32 { let unused = 1;\n  let b = a;\n  b }\n"), true),
  ("generic", Some("mod other;\nuse std::fmt::Debug;\npub fn f<T: Debug, const N: usize>(a: [T; N]) -> usize {\n  let b = &a;\n  b.len()\n}\n"), true),
  ("diverging", Some("mod other;\npub fn h() -> i32 { 1 }\npub fn f(a: i32) -> ! {\n  let _b = a;\n  panic!()\n}\n"), true),
  ("loops", Some("mod other;\npub fn h() -> i32 { 1 }\npub fn f(a: i32) {\n  let mut _b = a;\n  loop { _b += 1; }\n}\n"), true),
  ("empty body", Some("mod other;\n\npub fn f() {\n  \n}\n"), true),
  ("unfinished", Some("mod other;\npub fn f(a: i32) -> i32 {\n  let b = \n"), false),
  ("type error", Some("mod other;\n\npub fn f(a: i32) -> i32 {\n  let b: bool = a;\n  0\n}\n"), false),
  ("borrow error", Some("mod other;\n\npub fn f(a: i32) -> i32 {\n  let mut b = a; let r = &mut b; let q = &b; *r = 1; *q\n}\n"), false),
  ("elsewhere", Some("mod other;\npub fn bad() -> i32 { \"\" }\npub fn f(a: i32) -> i32 {\n  let b = a;\n  b\n}\n"), false),
  ("unresolved", Some("mod other; use nothing::here;\n\npub fn f(a: i32) -> i32 {\n  let b = a;\n  b\n}\n"), false),
  ("compile_error", Some("mod other; compile_error!(\"no\");\n\npub fn f(a: i32) -> i32 {\n  let b = a;\n  b\n}\n"), false),
  ("denied", Some("#![forbid(unsafe_code)] mod other;\n\npub fn f(a: i32) -> i32 {\n  unsafe { }\n  a\n}\n"), false),
  ("constant", Some("mod other;\npub const Z: usize = [0usize][1];\npub fn f(a: i32) -> i32 {\n  let b = a;\n  b\n}\n"), false),
  ("no module", Some("mod other; mod absent;\n\npub fn f(a: i32) -> i32 {\n  let b = a;\n  b\n}\n"), false),
  ("missing", None, false),
];

/// A request and the kind of its answer if the crate builds: the answer, or the type of error.
fn requests(main: &str, other: &str) -> Vec<(Vec<String>, Result<&'static str, &'static str>)> {
  let v = |s: &[&str]| s.iter().map(|s| s.to_string()).collect::<Vec<_>>();
  vec![
    (v(&["spans", main]), Ok("spans")),
    (v(&["spans", other]), Ok("spans")),
    (v(&["spans", "unrelated.rs"]), Err("FileNotFound")),
    (v(&["focus", main, "3", "2"]), Ok("place_info")),
    (v(&["focus", main, "0", "3"]), Err("AnalysisError")),
    (v(&["focus", other, "2", "3"]), Ok("place_info")),
    (v(&["focus", other, "0", "3"]), Err("AnalysisError")),
    (v(&["focus", "unrelated.rs", "3", "2"]), Err("AnalysisError")),
    (v(&["playground", main, "3", "2", "3", "2"]), Ok("outlives")),
    (v(&["playground", other, "2", "2", "2", "4"]), Ok("outlives")),
    (v(&["playground", main, "0", "0", "0", "3"]), Err("AnalysisError")),
    // from outside of one function into another
    (v(&["playground", other, "0", "2", "2", "4"]), Err("AnalysisError")),
    (v(&["playground", "unrelated.rs", "0", "0", "0", "0"]), Err("AnalysisError")),
  ]
}
const BAD_ARGS: &[&[&str]] = &[&[], &["focus", "x.rs"], &["focus", "x.rs", "1"], &["focus", "x.rs", "1", "-1"], &["focus", "x.rs", "a", "1"], &["--mutability-mode", "Nonsense", "spans", "x.rs"], &["--context-mode", "", "spans", "x.rs"], &["--pointer-mode", "precise", "spans", "x.rs"], &["nothing"]];

fn answer_fits(a: &Answer, builds: bool, want: &Result<&'static str, &'static str>) -> Result<(), String> {
  match (a, builds, want) {
    (Answer::BuildError, false, _) => Ok(()),
    (Answer::Json(v), true, Ok(field)) if v.as_object().is_some_and(|o| o.len() == 1) && v["Ok"][*field].is_array() => Ok(()),
    (Answer::Json(v), true, Err(e)) if v.as_object().is_some_and(|o| o.len() == 1) && v["Err"]["type"] == *e => Ok(()),
    (x, false, _) => Err(format!("the crate does not build, but the answer is {x:?}")),
    (x, true, w) => Err(format!("the answer should be {w:?}, but is {x:?}")),
  }
}

pub fn protocol_worker(shard: usize, n: usize, th: bool) {
  let dir = format!("ide{}.d", std::process::id());
  let main = format!("{dir}/lib.rs");
  let other = format!("{dir}/other.rs");
  let mut job = 0;
  for (name, text, builds) in CRATES {
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let t0 = std::time::Instant::now();
    let mut sampled = false;
    for with_other in [true, false] {
      for flags in MODE_FLAGS.iter().take(if th { 8 } else { 8 }) {
        job += 1;
        if job % n != shard { continue; }
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::write("unrelated.rs", "fn u() {}\n").unwrap();
        if let Some(t) = text { std::fs::write(&main, t).unwrap(); }
        if with_other { std::fs::write(&other, OTHER).unwrap(); }
        let builds = *builds && with_other;
        for (req, want) in requests(&main, &other) {
          let mut add = |k: &str, v: u64| *counts.entry(k.to_string()).or_insert(0) += v;
          add("programs", 1); add("checked", 1); add("evaluations", 1);
          add("nontrivial", (builds && want.is_ok()) as u64);
          let mut argv: Vec<&str> = flags.to_vec();
          argv.extend(req.iter().map(|s| s.as_str()));
          let show = format!("{name}{} | {}", if with_other { "" } else { ", other.rs missing" }, argv.join(" ").replace(&dir, "src"));
          let _w = crate::run::Watch::start("", &show);
          let a = request(&main, &argv);
          if let Err(e) = answer_fits(&a, builds, &want) { viol(name, &format!("{show}\n{}", text.unwrap_or("")), "answer", e); }
          if !sampled { sampled = true; println!("{}", json!({"t": "sample", "family": name, "src": show})); }
        }
      }
    }
    println!("{}", json!({"t": "counts", "family": name, "counts": counts, "secs": t0.elapsed().as_secs_f64()}));
  }
  if shard == 0 {
    for a in BAD_ARGS {
      if !matches!(request(&main, a), Answer::BadArgs(_)) { viol("arguments", &a.join(" "), "accepted", "these arguments should be refused".into()); }
    }
  }
  let _ = std::fs::remove_dir_all(&dir);
}

pub fn replay(prop: &str, path: &str) -> i32 {
  let text = std::fs::read_to_string(path).unwrap();
  let file = scratch();
  let mut n = 0;
  let r = match prop {
    "C17" => positions(&file, &text, 1, &mut |_, v| n += v),
    _ => None,
  };
  let _ = std::fs::remove_file(&file);
  println!("{n} {r:?}");
  r.is_some() as i32
}

// ---------------------------------------------------------------------------------------------
// C26: what the plugin prints for texts with all sorts of characters, to be shown by the extension.

const EXOTIC: &[&str] = &["é", "🦀", "e\u{301}", "\t", "𝒳→🦀"];
const E2E: &str = "/* 0 */ pub fn f(a: i32, c: bool) -> i32 {\n  let s = \"1\"; let mut x = a; /* 2 */ if c { x = 1; }\n  let g = |y: i32| { \"3\"; y + x }; g(a) // 4\n}\npub fn h(z: i32) -> i32 { z } /* 5 */ pub fn k(w: i32) -> i32 { w }\n";

/// All texts with at most so many exotic characters, with both kinds of line breaks, and with a byte order mark.
fn exotic(max: usize) -> Vec<(&'static str, String)> {
  let mut out = vec![];
  let n = EXOTIC.len() + 1;
  for code in 0 .. n.pow(6) {
    let digits: Vec<usize> = (0 .. 6).map(|i| code / n.pow(i) % n).collect();
    if digits.iter().filter(|d| **d > 0).count() > max { continue; }
    let mut t = E2E.to_string();
    for (i, d) in digits.iter().enumerate() {
      let (a, b) = ("/* S */".replace('S', &i.to_string()), format!("\"{i}\""));
      let v = if *d == 0 { "" } else { EXOTIC[*d - 1] };
      t = t.replace(&a, &format!("/* {v} */")).replace(&b, &format!("\"{v}\"")).replace(&format!("// {i}\n"), &format!("// {v}\n"));
    }
    out.push(("", t.replace('\n', "\r\n")));
    out.push(("\u{feff}", t.clone()));
    out.push(("", t));
  }
  out
}

pub fn e2e_worker(shard: usize, n: usize, th: bool) {
  let file = scratch();
  for (i, (mark, text)) in exotic(if th { 2 } else { 1 }).into_iter().enumerate() {
    if i % n != shard { continue; }
    // the mark is in the file, but not in what an editor takes for its text
    std::fs::write(&file, format!("{mark}{text}")).unwrap();
    let _w = crate::run::Watch::start("", &text);
    let mut answers: Vec<Value> = vec![];
    let mut index: BTreeMap<String, usize> = BTreeMap::new();
    let mut ask = |args: &[&str]| -> usize {
      let v = match raw(&file, args) { Ok(out) => json!({"code": 0, "stdout": String::from_utf8_lossy(&out)}), Err(e) => json!({"code": 1, "stderr": format!("{e:?}")}) };
      *index.entry(v.to_string()).or_insert_with(|| { answers.push(v); answers.len() - 1 })
    };
    let spans = ask(&["spans", &file]);
    let mut focus = serde_json::Map::new();
    for (l, line) in text.split('\n').enumerate() {
      for c in 0 ..= line.trim_end_matches('\r').chars().count() {
        // asking after the last line break is refused (known finding of C17)
        if l == text.matches('\n').count() { continue; }
        focus.insert(format!("{l}:{c}"), json!(ask(&["focus", &file, &l.to_string(), &c.to_string()])));
      }
    }
    println!("{}", json!({"t": "e2e", "text": text, "spans": spans, "focus": focus, "answers": answers}));
  }
  let _ = std::fs::remove_file(&file);
}
