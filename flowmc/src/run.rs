//! Driving: the parent shards the program families over worker processes.
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::time::Instant;

use serde_json::{json, Value};

use crate::checks::{self, Out, Prog};
use crate::checks2;
use crate::checks3;
use crate::engine;
use crate::ide;
use crate::ifc;
use crate::progs;
use crate::session;

pub enum Kind {
  /// judge each program on its own
  Per(fn(&Prog, &mut Out, bool)),
  /// judge each program, and compare what is said about it with what is said about it in a rewritten source
  Twin(fn(&Prog, &mut Out), fn(&str, &[String]) -> String, &'static str),
  /// not over programs
  Custom(fn(usize, usize, bool)),
}

pub struct Spec {
  pub families: Option<&'static [&'static str]>,
  pub exclude: &'static [&'static str],
  pub kind: Kind,
  /// weight bound on top of the family's own: (quick, thorough)
  pub cap: (usize, usize),
}

const WORLDS: &[&str] = &["worlds_own", "worlds_async", "worlds_fields", "worlds_shared", "worlds_holder", "worlds_params"];
const NOEXEC: &[&str] = &["rawptr", "zoo", "worlds_own", "worlds_async", "worlds_fields", "worlds_shared", "worlds_holder", "worlds_params"];

pub fn spec(prop: &str) -> Option<Spec> {
  use Kind::*;
  Some(match prop {
    "C01" => Spec { families: None, exclude: NOEXEC, kind: Per(|p, o, th| checks::backward(p, o, if th { 128 } else { 24 })), cap: (9, 9) },
    "C02" => Spec { families: None, exclude: NOEXEC, kind: Per(|p, o, th| checks2::forward(p, o, if th { 128 } else { 24 })), cap: (9, 9) },
    "C03" => Spec { families: None, exclude: NOEXEC, kind: Per(|p, o, th| checks2::aliases(p, o, if th { 4096 } else { 256 })), cap: (9, 9) },
    "C04" => Spec { families: None, exclude: NOEXEC, kind: Per(|p, o, th| checks2::mutations(p, o, if th { 4096 } else { 256 })), cap: (9, 9) },
    "C05" => Spec { families: Some(&["calls", "params", "params2", "traits", "fnptr", "holders", "lifetimes", "early", "iters", "callees", "generic", "containers", "objects", "enumrefs", "enumargs", "syntax", "awaits", "awaits_refs", "bodies", "bodies_move"]), exclude: &[],
      kind: Twin(|_, _| (), hollow, "what is reported about this function changes when the bodies of the functions it calls are replaced by `loop {}`"), cap: (9, 9) },
    "C06" => Spec { families: None, exclude: &["zoo"], kind: Per(|p, o, _| checks3::modes(p, o)), cap: (2, 3) },
    "C07" => Spec { families: Some(&["calls", "params", "params2", "traits", "fnptr", "holders", "lifetimes", "early", "iters", "closures", "higher", "callees", "generic", "containers", "objects", "enumrefs", "enumargs", "syntax", "awaits", "awaits_refs", "bodies", "bodies_move"]), exclude: &[],
      kind: Per(|p, o, th| checks3::recurse(p, o, if th { 128 } else { 24 })), cap: (9, 9) },
    "C08" => Spec { families: Some(&["scalar", "loops", "fields", "enums", "matching"]), exclude: &[], kind: Per(|p, o, _| checks3::baseline(p, o)), cap: (9, 9) },
    "C09" => Spec { families: Some(WORLDS), exclude: &[], kind: Per(|p, o, _| checks3::worlds(p, o)), cap: (9, 9) },
    "C10" => Spec { families: None, exclude: &[], kind: Custom(engine_worker), cap: (9, 9) },
    "C11" => Spec { families: None, exclude: &[], kind: Per(|p, o, _| checks3::algebra(p, o)), cap: (9, 9) },
    "C12" => Spec { families: None, exclude: &["zoo"], kind: Twin(checks3::again, reversed, "what is reported about this function depends on the order in which functions are analyzed"), cap: (2, 3) },
    "C13" => Spec { families: None, exclude: &[], kind: Per(|p, o, _| checks3::total(p, o)), cap: (2, 3) },
    "C14" => Spec { families: None, exclude: &[], kind: Custom(|s, n, th| ifc::worker("missed", s, n, th)), cap: (9, 9) },
    "C15" => Spec { families: None, exclude: &[], kind: Custom(|s, n, th| ifc::worker("cause", s, n, th)), cap: (9, 9) },
    "C16" => Spec { families: None, exclude: &[], kind: Custom(ide::focus_worker), cap: (9, 9) },
    "C17" => Spec { families: None, exclude: &[], kind: Custom(ide::positions_worker), cap: (9, 9) },
    "C18" => Spec { families: None, exclude: &[], kind: Custom(ide::protocol_worker), cap: (9, 9) },
    "C25" => Spec { families: None, exclude: &[], kind: Custom(crate::sigs::worker), cap: (9, 9) },
    "C26" => Spec { families: None, exclude: &[], kind: Custom(ide::e2e_worker), cap: (9, 9) },
    _ => return None,
  })
}

/// The same items with every function body replaced by `loop {}`.
pub fn hollow_items(src: &str) -> String {
  let b: Vec<char> = src.chars().collect();
  let mut out = String::new();
  let mut i = 0;
  while i < b.len() {
    let at_fn = b[i ..].starts_with(&['f', 'n', ' ']) && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_'));
    if at_fn {
      let mut j = i;
      while b[j] != '{' && b[j] != ';' { out.push(b[j]); j += 1; }
      if b[j] == '{' {
        let mut depth = 0;
        loop {
          if b[j] == '{' { depth += 1; }
          if b[j] == '}' { depth -= 1; }
          j += 1;
          if depth == 0 { break; }
        }
        out.push_str("{ loop {} }");
      }
      i = j;
    } else {
      out.push(b[i]);
      i += 1;
    }
  }
  out
}
fn hollow(prelude: &str, fns: &[String]) -> String { format!("{}\n{}", hollow_items(prelude), fns.concat()) }
fn reversed(prelude: &str, fns: &[String]) -> String { format!("{}{}", fns.iter().rev().cloned().collect::<String>(), prelude) }

fn engine_worker(shard: usize, n: usize, th: bool) {
  let mut jobs = vec![(1, 3), (2, 2), (3, 1)];
  if th { jobs = vec![(1, 4), (2, 3), (3, 2), (4, 1)]; }
  session::with_bodies("fn main() {}", &[], |tcx, _| {
    for (blocks, len) in jobs {
      let mut counts: BTreeMap<String, u64> = BTreeMap::new();
      let t0 = Instant::now();
      let fam = format!("{blocks} blocks of up to {len} instructions");
      let mut sampled = false;
      engine::explore(blocks, len, shard, n, |cfg| {
        let mut add = |k: &str, v: u64| *counts.entry(k.to_string()).or_insert(0) += v;
        add("programs", 1);
        add("checked", 1);
        let watch = Watch::start("", &format!("{cfg:?}"));
        let r = catch_unwind(AssertUnwindSafe(|| engine::check(tcx, cfg, &mut add)));
        drop(watch);
        let v = match r {
          Ok(v) => v,
          Err(_) => Some(checks::Viol { key: "panic".into(), detail: format!("the engine panicked on {cfg:?}") }),
        };
        match v {
          Some(v) => println!("{}", json!({"t": "viol", "family": fam, "index": 0, "prelude": "", "src": format!("{cfg:?}"), "n": 1, "viols": [[v.key, v.detail]]})),
          None if !sampled => { sampled = true; println!("{}", json!({"t": "sample", "family": fam, "src": format!("{cfg:?}"), "counts": {}})); }
          None => {}
        }
      });
      println!("{}", json!({"t": "counts", "family": fam, "counts": counts, "secs": t0.elapsed().as_secs_f64()}));
    }
  });
}

pub fn is_case(name: &str) -> bool {
  name.starts_with('f') && name.len() > 1 && name[1 ..].chars().all(|c| c.is_ascii_digit())
}

/// What this process is working on, for the watchdog.
static NOW: std::sync::Mutex<Option<(Instant, String)>> = std::sync::Mutex::new(None);
/// The same, where the parent finds it when this process is killed by a signal.
static AT: std::sync::Mutex<Option<std::fs::File>> = std::sync::Mutex::new(None);
/// No query takes anywhere near this long: one which does is reported as unanswered.
const PATIENCE: u64 = 150;

pub struct Watch;
impl Watch {
  pub fn start(src: &str, name: &str) -> Watch {
    let text = src.lines().find(|l| l.contains(&format!("fn {name}("))).unwrap_or(name).to_string();
    if let Some(f) = AT.lock().unwrap().as_ref() {
      use std::os::unix::fs::FileExt;
      let t = format!("{text:<4096}");
      let _ = f.write_all_at(t.as_bytes(), 0);
    }
    *NOW.lock().unwrap() = Some((Instant::now(), text));
    Watch
  }
}
impl Drop for Watch { fn drop(&mut self) { *NOW.lock().unwrap() = None; } }

fn watchdog() {
  std::thread::spawn(|| loop {
    std::thread::sleep(std::time::Duration::from_secs(5));
    let now = NOW.lock().unwrap().clone();
    if let Some((since, text)) = now && since.elapsed().as_secs() > PATIENCE {
      println!("{}", json!({"t": "viol", "family": "unanswered", "index": 0, "prelude": "", "src": text, "n": 1,
        "viols": [["hang", format!("no answer within {PATIENCE} s")]]}));
      println!("{}", json!({"t": "done"}));
      std::process::exit(0);
    }
  });
}

/// Run a check over the functions `f<N>` of a source text.
pub fn run_source(src: &str, all: bool, check: &(dyn Fn(&Prog, &mut Out) + Sync), mut each: impl FnMut(&str, Option<Out>) + Send) -> bool {
  session::with_bodies(src, &[], |tcx, items| {
    for (name, def, body_id) in items {
      if !all && !is_case(name) { continue; }
      let _watch = Watch::start(src, name);
      // what an async function does is in the body of its future
      let (def, body_id) = if is_case(name) && (tcx.asyncness(def.to_def_id()).is_async() || src.contains(progs::CLOSURE_BODIES)) {
        let Some((_, d, b)) = items.iter().find(|(n, _, _)| *n == format!("{name}::{{closure#0}}")) else { each(name, None); continue };
        (d, b)
      } else { (def, body_id) };
      let Some(facts) = session::borrowck_ok(tcx, *def) else { each(name, None); continue };
      let p = Prog { tcx, def: *def, body_id: *body_id, facts };
      let mut out = Out::default();
      let r = catch_unwind(AssertUnwindSafe(|| check(&p, &mut out)));
      if let Err(e) = r {
        let msg = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        out.viols.push(checks::Viol { key: "panic".into(), detail: format!("the analysis panicked: {msg}") });
      }
      each(name, Some(out));
    }
  })
}

fn text_of(fam: &progs::Family, idx: usize, name: &str, progs: &[String]) -> String {
  if is_case(name) { progs::function(fam, idx, &progs[idx]) } else { name.to_string() }
}

fn index(name: &str) -> usize {
  let d: String = name.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect();
  d.parse().unwrap_or(0)
}

fn thorough() -> bool { std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) }

pub fn worker(prop: &str, shard: usize, n: usize) -> i32 {
  std::panic::set_hook(Box::new(|_| {}));
  let spec = spec(prop).unwrap();
  let th = thorough();
  let batch = 300;
  watchdog();
  *AT.lock().unwrap() = std::fs::File::create(format!("at.{}", std::process::id())).ok();
  if let Kind::Custom(f) = spec.kind {
    f(shard, n, th);
    println!("{}", json!({"t": "done"}));
    return 0;
  }
  let only = std::env::var("FLOWMC_FAMILY").ok();
  for fam in progs::families() {
    if let Some(list) = spec.families && !list.contains(&fam.name) { continue; }
    if spec.exclude.contains(&fam.name) { continue; }
    if let Some(o) = &only && o != fam.name { continue; }
    let progs = fam.programs(if th { fam.thorough.min(spec.cap.1) } else { fam.quick.min(spec.cap.0) });
    let mine: Vec<(usize, &String)> = progs.iter().enumerate().filter(|(i, _)| i % n == shard).collect();
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let t0 = Instant::now();
    let mut nsamples = 0;
    for chunk in mine.chunks(batch) {
      let fns: Vec<String> = chunk.iter().map(|(i, b)| progs::function(&fam, *i, b)).collect();
      let src = format!("{}{}", fam.prelude, fns.concat());
      let mut outs: Vec<(String, Option<Out>)> = vec![];
      match &spec.kind {
        Kind::Per(f) => {
          let check = |p: &Prog, o: &mut Out| f(p, o, th);
          run_source(&src, fam.name == "zoo", &check, |name, out| outs.push((name.to_string(), out)));
        }
        Kind::Twin(f, twin, what) => {
          // C12: the functions called are analyzed on their own as well, and recursively
          let deep = prop == "C12";
          let check = |p: &Prog, o: &mut Out| { f(p, o); o.dump = checks3::dump(p); if deep { o.dump.extend(checks3::dump_recurse(p)); } };
          run_source(&src, deep, &check, |name, out| if is_case(name) { outs.push((name.to_string(), out)) });
          let mut other: BTreeMap<String, Option<Out>> = BTreeMap::new();
          run_source(&twin(fam.prelude, &fns), deep, &check, |name, out| { other.insert(name.to_string(), out); });
          for (name, out) in &mut outs {
            let Some(o) = out else { continue };
            let t2 = match other.get(name) { Some(Some(o)) => o.dump.clone(), _ => vec![] };
            o.add("evaluations", o.dump.len() as u64);
            o.add("nontrivial", !o.dump.is_empty() as u64);
            if t2 != o.dump {
              let d = o.dump.iter().zip(&t2).find(|(x, y)| x != y).map(|(x, y)| format!("{}  becomes  {}", checks3::show(x), checks3::show(y))).unwrap_or_else(|| format!("{} facts become {}", o.dump.len(), t2.len()));
              o.viols.push(checks::Viol { key: "differs".into(), detail: format!("{what}: {d}") });
            }
          }
        }
        Kind::Custom(_) => unreachable!(),
      }
      for (name, out) in outs {
        let name = name.as_str();
        let mut add = |k: &str, v: u64| *counts.entry(k.to_string()).or_insert(0) += v;
        add("programs", 1);
        match out {
          None => add("rejected_by_rustc", 1),
          Some(o) => {
            for (k, v) in &o.counts { add(k, *v); }
            if let Some(u) = &o.unsupported {
              add("unsupported", 1);
              println!("{}", json!({"t": "unsup", "family": fam.name, "why": u}));
              continue;
            }
            add("checked", 1);
            if nsamples < 1 && o.viols.is_empty() {
              nsamples += 1;
              let idx = index(name);
              println!("{}", json!({"t": "sample", "family": fam.name, "src": text_of(&fam, idx, name, &progs), "counts": o.counts}));
            }
            if !o.viols.is_empty() {
              let idx = index(name);
              let vs: Vec<Value> = o.viols.iter().take(40).map(|v| json!([v.key, v.detail])).collect();
              println!("{}", json!({"t": "viol", "family": fam.name, "index": idx, "prelude": fam.prelude,
                "src": text_of(&fam, idx, name, &progs), "n": o.viols.len(), "viols": vs}));
            }
          }
        }
      }
    }
    println!("{}", json!({"t": "counts", "family": fam.name, "counts": counts, "secs": t0.elapsed().as_secs_f64()}));
  }
  println!("{}", json!({"t": "done"}));
  0
}

pub fn parent(prop: &str) -> i32 {
  let n = std::env::var("FLOWMC_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
  let t0 = Instant::now();
  let exe = std::env::current_exe().unwrap();
  let hs: Vec<_> = (0 .. n).map(|i| {
    let mut c = Command::new(&exe).args(["worker", prop, &i.to_string(), &n.to_string()])
      .stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
    std::thread::spawn(move || {
      let out = BufReader::new(c.stdout.take().unwrap());
      let lines: Vec<Value> = out.lines().map_while(|l| l.ok()).filter_map(|l| serde_json::from_str(&l).ok()).collect();
      let pid = c.id();
      let st = c.wait().unwrap();
      let at = std::fs::read_to_string(format!("at.{pid}")).unwrap_or_default().trim().to_string();
      let _ = std::fs::remove_file(format!("at.{pid}"));
      use std::os::unix::process::ExitStatusExt;
      let died = st.signal().filter(|s| [6, 7, 11].contains(s)).map(|s| (s, at));
      (lines, st.success(), died)
    })
  }).collect();
  let mut counts: BTreeMap<String, BTreeMap<String, u64>> = BTreeMap::new();
  let mut viols: Vec<Value> = vec![];
  let mut unsup: BTreeMap<String, u64> = BTreeMap::new();
  let mut ok = true;
  let mut samples: Vec<Value> = vec![];
  for h in hs {
    let (lines, success, died) = h.join().unwrap();
    if let Some((sig, at)) = died {
      viols.push(json!({"t": "viol", "family": "unanswered", "index": 0, "prelude": "", "src": at, "n": 1, "viols": [["crash", format!("the process died of signal {sig}")]]}));
    }
    let mut done = false;
    for l in lines {
      match l["t"].as_str().unwrap_or("") {
        "counts" => {
          let e = counts.entry(l["family"].as_str().unwrap().to_string()).or_default();
          for (k, v) in l["counts"].as_object().unwrap() { *e.entry(k.clone()).or_insert(0) += v.as_u64().unwrap(); }
          *e.entry("cpu_ms".into()).or_insert(0) += (l["secs"].as_f64().unwrap() * 1000.0) as u64;
        }
        "viol" => viols.push(l),
        "sample" => samples.push(l),
        "unsup" => *unsup.entry(format!("{}: {}", l["family"].as_str().unwrap(), l["why"].as_str().unwrap())).or_insert(0) += 1,
        "done" => done = true,
        _ => {}
      }
    }
    ok &= done && success;
  }
  viols.sort_by_key(|v| v["src"].as_str().unwrap().len());
  let res = json!({"ok": ok, "secs": t0.elapsed().as_secs_f64(), "families": counts, "violations": viols, "unsupported": unsup, "samples": samples});
  let mut so = std::io::stdout().lock();
  writeln!(so, "{}", serde_json::to_string(&res).unwrap()).unwrap();
  0
}

/// Check the functions f<N> of one file and print what is wrong.
pub fn file(prop: &str, path: &str) -> i32 {
  let spec = spec(prop).unwrap();
  let src = std::fs::read_to_string(path).unwrap();
  if std::env::var("LOUD").is_err() { std::panic::set_hook(Box::new(|_| {})); }
  let mut bad = 0;
  if ["C16", "C17", "C18"].contains(&prop) { return ide::replay(prop, path); }
  if prop == "C14" || prop == "C15" { ifc::file(if prop == "C14" { "missed" } else { "cause" }, &src); return 0; }
  let dump = std::env::var("DUMP").is_ok();
  run_source(&src, std::env::var("ALL").is_ok(), &|p: &Prog, o: &mut Out| {
    if dump { use rustc_utils::BodyExt; println!("{}", p.facts.body.to_string(p.tcx).unwrap()); }
    match &spec.kind { Kind::Per(f) => f(p, o, true), Kind::Twin(f, ..) => { f(p, o); for l in checks3::dump(p) { println!("{}", checks3::show(&l)); } } _ => {} }
  }, |name, out| {
    match out {
      None => println!("{name}: rejected by rustc"),
      Some(o) => {
        println!("{name}: {:?} {:?}", o.counts, o.unsupported);
        for v in &o.viols { bad += 1; println!("  VIOL {} :: {}", v.key, v.detail); }
      }
    }
  });
  if bad > 0 { 1 } else { 0 }
}

pub fn main(args: &[String]) -> i32 {
  match args.iter().map(|s| s.as_str()).collect::<Vec<_>>().as_slice() {
    ["worker", p, s, n] => worker(p, s.parse().unwrap(), n.parse().unwrap()),
    ["check", p] => parent(p),
    ["file", p, f] => file(p, f),
    _ => { eprintln!("usage: flowmc check PROP | file PROP FILE"); 2 }
  }
}
