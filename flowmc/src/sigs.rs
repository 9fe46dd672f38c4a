//! C25: what a call is blamed for is what functions of its signature can do.
//!
//! Every signature of a bounded grammar of types, called on arguments which live in local variables
//! of their own.  What functions of the signature can do is found by enumerating implementations:
//! for every path a one-line function which writes it, returns a reference to it, or leaves a
//! reference to it behind; rustc decides which of them are functions of that signature.
use std::collections::{BTreeMap, BTreeSet};

use flowistry::infoflow;
use rustc_middle::mir::*;
use rustc_middle::ty::TyCtxt;
use rustc_utils::mir::location_or_arg::LocationOrArg;
use rustc_utils::PlaceExt;
use serde_json::json;

use crate::checks::Prog;
use crate::run::Watch;
use crate::session;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum T { Int, Ref(char, bool, Box<T>), Pair(Box<T>, Box<T>), Opt(Box<T>), Bx(Box<T>), S(char), R(char) }
use T::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Seg { Deref, Unbox, Field(u32), Some }

pub const PRELUDE: &str = "pub struct S<'a> { pub r: &'a mut i32, pub k: i32 }\npub struct R<'a> { pub r: &'a i32, pub k: i32 }\n";

impl T {
  fn text(&self) -> String {
    match self {
      Int => "i32".into(),
      Ref(l, m, t) => format!("&'{l} {}{}", if *m { "mut " } else { "" }, t.text()),
      Pair(a, b) => format!("({}, {})", a.text(), b.text()),
      Opt(t) => format!("Option<{}>", t.text()),
      Bx(t) => format!("Box<{}>", t.text()),
      S(l) => format!("S<'{l}>"),
      R(l) => format!("R<'{l}>"),
    }
  }
  fn fields(&self) -> Vec<(Seg, T)> {
    match self {
      Int => vec![],
      Ref(_, _, t) => vec![(Seg::Deref, (**t).clone())],
      Pair(a, b) => vec![(Seg::Field(0), (**a).clone()), (Seg::Field(1), (**b).clone())],
      Opt(t) => vec![(Seg::Some, (**t).clone())],
      Bx(t) => vec![(Seg::Unbox, (**t).clone())],
      S(l) => vec![(Seg::Field(0), Ref(*l, true, Box::new(Int))), (Seg::Field(1), Int)],
      R(l) => vec![(Seg::Field(0), Ref(*l, false, Box::new(Int))), (Seg::Field(1), Int)],
    }
  }
  fn lifetimes(&self, out: &mut Vec<char>) {
    match self {
      Int => {}
      Ref(l, _, t) => { out.push(*l); t.lifetimes(out) }
      Pair(a, b) => { a.lifetimes(out); b.lifetimes(out) }
      Opt(t) | Bx(t) => t.lifetimes(out),
      S(l) | R(l) => out.push(*l),
    }
  }
  fn copy(&self) -> bool {
    match self { Int | R(_) | Ref(_, false, _) => true, Pair(a, b) => a.copy() && b.copy(), Opt(t) => t.copy(), _ => false }
  }
  /// types with exactly n constructors around integers
  fn all(n: usize) -> Vec<T> {
    if n == 0 { return vec![Int]; }
    let mut v = vec![];
    for t in T::all(n - 1) {
      for l in ['a', 'b'] { for m in [true, false] { v.push(Ref(l, m, Box::new(t.clone()))); } }
      v.push(Opt(Box::new(t.clone())));
      v.push(Bx(Box::new(t.clone())));
    }
    for i in 0 .. n {
      for a in T::all(i) { for b in T::all(n - 1 - i) { v.push(Pair(Box::new(a.clone()), Box::new(b.clone()))); } }
    }
    if n == 1 { for l in ['a', 'b'] { v.push(S(l)); v.push(R(l)); } }
    v
  }
}

/// A path from a parameter: the parameter and the steps.
type Path = (usize, Vec<Seg>);
/// Memory of the caller: a local variable (or a temporary holding the argument itself) and fields.
type Mem = (String, Vec<u32>);

struct Caller { decls: String, n: usize, place: BTreeMap<Path, Mem>, ty: BTreeMap<Path, T>, expr: BTreeMap<Path, (String, Vec<Seg>)> }
impl Caller {
  fn walk(&mut self, p: &Path, t: &T, mem: Mem, coarse: bool, base: &(String, Vec<Seg>)) {
    self.place.insert(p.clone(), mem.clone());
    self.ty.insert(p.clone(), t.clone());
    self.expr.insert(p.clone(), base.clone());
    for (seg, ft) in t.fields() {
      if seg == Seg::Deref { continue; }
      let mut q = p.clone();
      q.1.push(seg);
      let mut m = mem.clone();
      let mut c = coarse;
      match seg { Seg::Field(i) if !coarse => m.1.push(i), Seg::Field(_) => {}, _ => c = true }
      let mut b = base.clone();
      b.1.push(seg);
      self.walk(&q, &ft, m, c, &b);
    }
  }
  /// the value of type t held at path p; creates the variables it refers to
  fn value(&mut self, p: &Path, t: &T) -> String {
    let go = |s: &mut Self, seg: Seg, t: &T| { let mut q = p.clone(); q.1.push(seg); s.value(&q, t) };
    match t {
      Int => { self.n += 1; format!("{}", self.n) }
      Ref(_, m, inner) => {
        let mut q = p.clone();
        q.1.push(Seg::Deref);
        let e = self.value(&q, inner);
        self.n += 1;
        let x = format!("x{}", self.n);
        self.decls.push_str(&format!("let mut {x} = {e}; "));
        self.walk(&q, inner, (x.clone(), vec![]), false, &(x.clone(), vec![]));
        format!("&{}{x}", if *m { "mut " } else { "" })
      }
      Pair(a, b) => { let a = go(self, Seg::Field(0), a); let b = go(self, Seg::Field(1), b); format!("({a}, {b})") }
      Opt(t) => { let v = go(self, Seg::Some, t); format!("Some({v})") }
      Bx(t) => { let v = go(self, Seg::Unbox, t); format!("Box::new({v})") }
      S(l) | R(l) => {
        let r = go(self, Seg::Field(0), &Ref(*l, matches!(t, S(_)), Box::new(Int)));
        let k = go(self, Seg::Field(1), &Int);
        format!("{} {{ r: {r}, k: {k} }}", if matches!(t, S(_)) { "S" } else { "R" })
      }
    }
  }
}

/// whether opening the options on a path by value copies something
fn copies(bt: &T, segs: &[Seg]) -> bool {
  (0 .. segs.len()).any(|i| segs[i] == Seg::Some && type_at(bt, &segs[..= i]).copy())
}
/// `base` followed by steps, as an lvalue; options need to be opened around it.
fn lvalue(base: &str, bt: &T, segs: &[Seg], fresh: &mut usize) -> (String, String, String) {
  let (mut pre, mut e, mut post) = (String::new(), base.to_string(), String::new());
  let mut t = bt.clone();
  for s in segs {
    match s {
      Seg::Deref | Seg::Unbox => e = format!("(*{e})"),
      Seg::Field(i) => e = match t { S(_) | R(_) => format!("{e}.{}", ["r", "k"][*i as usize]), _ => format!("{e}.{i}") },
      Seg::Some => {
        *fresh += 1;
        pre.push_str(&format!("if let Some(ref mut q{fresh}) = {e} {{ "));
        e = format!("(*q{fresh})");
        post.push_str(" }");
      }
    }
    t = t.fields().into_iter().find(|f| f.0 == *s).unwrap().1;
  }
  (pre, e, post)
}
fn type_at(t: &T, segs: &[Seg]) -> T {
  segs.iter().fold(t.clone(), |t, s| t.fields().into_iter().find(|f| f.0 == *s).unwrap().1)
}
fn paths(t: &T) -> Vec<Vec<Seg>> {
  let mut v = vec![vec![]];
  for (s, ft) in t.fields() { for mut r in paths(&ft) { r.insert(0, s); v.push(r); } }
  v
}

/// the type with the references in structs mutable
fn exposed(t: &T) -> T {
  let sub = |t: &T| Box::new(exposed(t));
  match t { Int => Int, Ref(l, m, t) => Ref(*l, *m, sub(t)), Pair(a, b) => Pair(sub(a), sub(b)), Opt(t) => Opt(sub(t)), Bx(t) => Bx(sub(t)), S(l) | R(l) => S(*l) }
}
/// the type with all references shared
fn all_shared(t: &T) -> T {
  let sub = |t: &T| Box::new(all_shared(t));
  match t { Int => Int, Ref(l, _, t) => Ref(*l, false, sub(t)), Pair(a, b) => Pair(sub(a), sub(b)), Opt(t) => Opt(sub(t)), Bx(t) => Bx(sub(t)), S(l) | R(l) => R(*l) }
}
/// the type with all references shared but those on the way to a path
fn shared_beyond(t: &T, segs: &[Seg]) -> T {
  let sub = |t: &T| Box::new(shared_beyond(t, &segs[1 ..]));
  match (t, segs.first()) {
    (Ref(l, m, t), Some(_)) => Ref(*l, *m, sub(t)),
    (Pair(a, b), Some(Seg::Field(0))) => Pair(sub(a), Box::new(all_shared(b))),
    (Pair(a, b), Some(_)) => Pair(Box::new(all_shared(a)), sub(b)),
    (Opt(t), Some(_)) => Opt(sub(t)),
    (Bx(t), Some(_)) => Bx(sub(t)),
    (t, _) => all_shared(t),
  }
}
/// the type with the reference at a path made a shared one
fn shared_at(t: &T, segs: &[Seg]) -> T {
  let sub = |t: &T| Box::new(shared_at(t, &segs[1 ..]));
  match (t, segs.first()) {
    (Ref(l, _, t), None) => Ref(*l, false, t.clone()),
    (Ref(l, m, t), Some(_)) => Ref(*l, *m, sub(t)),
    (Pair(a, b), Some(Seg::Field(0))) => Pair(sub(a), b.clone()),
    (Pair(a, b), Some(_)) => Pair(a.clone(), sub(b)),
    (Opt(t), Some(_)) => Opt(sub(t)),
    (Bx(t), Some(_)) => Bx(sub(t)),
    (S(l), Some(Seg::Field(0))) => R(*l),
    _ => t.clone(),
  }
}

pub struct Sig { params: Vec<T>, ret: Option<T> }
impl Sig {
  fn text(&self) -> String {
    let ps: Vec<String> = self.params.iter().enumerate().map(|(i, t)| format!("mut p{i}: {}", t.text())).collect();
    format!("<'a, 'b{}>({}){}", if self.params.last().is_some_and(|t| matches!(t, Ref('x', ..))) { ", 'x" } else { "" }, ps.join(", "), self.ret.as_ref().map(|r| format!(" -> {}", r.text())).unwrap_or_default())
  }
  fn paths(&self) -> Vec<Path> {
    self.params.iter().enumerate().flat_map(|(i, t)| paths(t).into_iter().map(move |p| (i, p))).collect()
  }
  fn at(&self, p: &Path) -> T { type_at(&self.params[p.0], &p.1) }
  /// expressions (in blocks which diverge otherwise) for a mutable reference to what a path names
  fn refs(&self, q: &Path, mutable: bool) -> Vec<String> {
    let mut out = vec![];
    let amp = if mutable { "&mut" } else { "&" };
    for cut in 0 ..= q.1.len() {
      let mut fresh = 0;
      let head = type_at(&self.params[q.0], &q.1[.. cut]);
      let (pre, e, post) = lvalue(&format!("p{}", q.0), &self.params[q.0], &q.1[.. cut], &mut fresh);
      let take = if cut == 0 || head.copy() { format!("let mut h = {e};") } else { format!("let mut h = unsafe {{ std::mem::replace(&mut {e}, std::mem::zeroed()) }};") };
      let rest = &q.1[cut ..];
      let (pre2, e2, post2) = lvalue("h", &head, rest, &mut fresh);
      let value = if rest == [Seg::Deref] { "h".to_string() } else { format!("{amp} {e2}") };
      // options which are taken apart may be taken apart by value as well
      for by_move in [false, true] {
        if by_move && copies(&head, rest) { continue; }
        if by_move && !pre2.contains("ref mut ") { continue; }
        let pre2 = if by_move { pre2.replace("ref mut ", "mut ") } else { pre2.clone() };
        let value = if by_move { fix_moved(&value) } else { value.clone() };
        out.push(format!("{{ {pre}{take} {pre2}break 'o ({value});{post2}{post} loop {{}} }}"));
      }
      // without taking anything
      if cut == 0 {
        let (pre, e, post) = lvalue(&format!("p{}", q.0), &self.params[q.0], &q.1, &mut fresh);
        out.push(format!("{{ {pre}break 'o ({amp} {e});{post} loop {{}} }}"));
      }
    }
    if !mutable {
      for e in out.clone() { if e.contains("ref mut ") { out.push(e.replace("ref mut ", "ref ")); } }
    }
    out
  }
}
/// `(*q1)` names what the option held, when that was bound by reference; by value it is `q1`
fn fix_moved(e: &str) -> String {
  let mut s = e.to_string();
  for i in 1 .. 20 { s = s.replace(&format!("(*q{i})"), &format!("q{i}")); }
  if let Some(r) = s.strip_prefix("&mut (*").or(s.strip_prefix("& (*")) && let Some(x) = r.strip_suffix(")") && x.starts_with('q') && x[1 ..].chars().all(|c| c.is_ascii_digit()) { return x.to_string(); }
  s
}

pub fn signatures(th: bool) -> Vec<Sig> {
  let first_a = |ts: &[T]| { let mut l = vec![]; for t in ts { t.lifetimes(&mut l); } l.first().map(|c| *c == 'a').unwrap_or(true) };
  let mut v = vec![];
  let rets = |ps: &[T]| {
    let mut l = vec![];
    for t in ps { t.lifetimes(&mut l); }
    l.sort(); l.dedup();
    let mut r = vec![None];
    for c in l { r.push(Some(Ref(c, true, Box::new(Int)))); }
    r
  };
  let mut add = |ps: Vec<T>| if first_a(&ps) { for ret in rets(&ps) { v.push(Sig { params: ps.clone(), ret }); } };
  let by: Vec<Vec<T>> = (0 .. 4).map(T::all).collect();
  for n in 1 ..= 3 { for t in &by[n] { add(vec![t.clone()]); } }
  let pairs: &[(usize, usize)] = if th { &[(1, 1), (1, 2), (2, 1), (2, 2)] } else { &[(1, 1), (1, 2), (2, 1)] };
  for (i, j) in pairs { for a in &by[*i] { for b in &by[*j] { add(vec![a.clone(), b.clone()]); } } }
  v
}

struct Case { sig: usize, what: String, text: String, /// impls which justify a target, with the memory each reaches
  call: String, targets: Vec<Target>, allowed: Vec<Target> }
type Moves = BTreeMap<(Path, Path), Vec<String>>;
#[derive(Clone)]
enum Target { Always(Mem), If(Vec<String>, Mem) }

fn overlap(a: &Mem, b: &Mem) -> bool { a.0 == b.0 && a.1.iter().zip(&b.1).all(|(x, y)| x == y) }

pub fn worker(shard: usize, n: usize, th: bool) {
  let sigs: Vec<(usize, Sig)> = signatures(th).into_iter().enumerate().filter(|(i, _)| i % n == shard).collect();
  let mut counts: BTreeMap<String, u64> = BTreeMap::new();
  let t0 = std::time::Instant::now();
  let mut sampled = false;
  for chunk in sigs.chunks(150) { batch(chunk, &mut counts, &mut sampled); }
  println!("{}", json!({"t": "counts", "family": "signatures", "counts": counts, "secs": t0.elapsed().as_secs_f64()}));
}

fn batch(chunk: &[(usize, Sig)], counts: &mut BTreeMap<String, u64>, sampled: &mut bool) {
  let mut src = String::from(PRELUDE);
  let mut cases: BTreeMap<String, Case> = BTreeMap::new();
  for (id, sig) in chunk {
    let (src_new, cs) = cases_of(*id, sig);
    src.push_str(&src_new);
    for (name, c) in cs { src.push_str(&c.text); src.push('\n'); cases.insert(name, c); }
  }
  judge(&src, &cases, counts, sampled);
}

fn cases_of(id: usize, sig: &Sig) -> (String, Vec<(String, Case)>) {
  let mut src = String::new();
  let mut nimpl = 0;
  let mut imp_of = |sig: &Sig, body: String, src: &mut String| { nimpl += 1; let n = format!("i{id}_{nimpl}"); src.push_str(&format!("pub fn {n}{} {{ {body} }}\n", sig.text())); n };
  src.push_str(&format!("pub fn c{id}{} {{ loop {{}} }}\n", sig.text()));
  let mut caller = Caller { decls: String::new(), n: 0, place: BTreeMap::new(), ty: BTreeMap::new(), expr: BTreeMap::new() };
  let args: Vec<String> = sig.params.iter().enumerate().map(|(i, t)| { let p = (i, vec![]); let e = caller.value(&p, t); caller.walk(&p, t, (format!("arg{i}"), vec![]), false, &(format!("arg{i}"), vec![])); e }).collect();
  let is_local = |m: &Mem| m.0.starts_with('x');
  let ps = sig.paths();
  let mut cases = vec![];
  // what can be written
  let mut writes = vec![];
  let mut write_paths = vec![];
  for p in &ps {
    if !is_local(&caller.place[p]) { continue; }
    let mut fresh = 0;
    let (pre, e, post) = lvalue(&format!("p{}", p.0), &sig.params[p.0], &p.1, &mut fresh);
    let a = imp_of(sig, format!("{pre}{e} = unsafe {{ std::mem::zeroed() }};{post} loop {{}}"), &mut src);
    // through an option which is taken apart by value
    let b = if copies(&sig.params[p.0], &p.1) { a.clone() } else { imp_of(sig, format!("{}{} = unsafe {{ std::mem::zeroed() }};{post} loop {{}}", pre.replace("ref mut ", "mut "), fix_moved(&e)), &mut src) };
    write_paths.push((p.clone(), vec![vec![a.clone(), b.clone()]]));
    writes.push(Target::If(vec![a, b], caller.place[p].clone()));
  }
  let call = format!("c{id}({})", args.join(", "));
  // what a path can come to name: (path, path) -> implementations.  Nobody can make a mutable reference out of a
  // shared one, but what is said about references is about lifetimes: so `loose` is about shared references.
  let mut strict: Moves = BTreeMap::new();
  let mut loose: Moves = BTreeMap::new();
  for h in &ps {
    let T::Ref(_, is_mut, inner) = sig.at(h) else { continue };
    let mut weak = Sig { params: sig.params.clone(), ret: None };
    weak.params[h.0] = shared_at(&weak.params[h.0], &h.1);
    let mut weaker = Sig { params: sig.params.iter().map(all_shared).collect(), ret: None };
    weaker.params[h.0] = shared_beyond(&sig.params[h.0], &h.1);
    for q in &ps {
      if sig.at(q).shape() != inner.shape() { continue; }
      let mut mine = h.clone();
      mine.1.push(Seg::Deref);
      if *q == mine { continue; }
      let mut fresh = 10;
      let (pre, e, post) = lvalue(&format!("p{}", h.0), &sig.params[h.0], &h.1, &mut fresh);
      for (sig, mutable) in [(sig, true), (&weak, false), (&weaker, false)] {
        let m = if mutable { &mut strict } else { &mut loose };
        if mutable && (!is_mut || !is_local(&caller.place[h])) { continue; }
        for r in sig.refs(q, mutable) {
          let n = imp_of(sig, format!("let s = 'o: {r}; {pre}{e} = s;{post} loop {{}}"), &mut src);
          m.entry((mine.clone(), q.clone())).or_default().push(n);
        }
      }
    }
  }
  for (k, v) in &strict { loose.entry(k.clone()).or_default().extend(v.iter().cloned()); }
  // Data of another type counts as a whole (an element of a vector is behind a reference to another type than the
  // vector), if a reference of that lifetime may lead there: what is accepted for an extra parameter to leave it in.
  let mut other: Moves = BTreeMap::new();
  for h in &ps {
    let T::Ref(l, _, inner) = sig.at(h) else { continue };
    for q in &ps {
      if q.1.last() != Some(&Seg::Deref) || sig.at(q).shape() == inner.shape() { continue; }
      let mut mine = h.clone();
      mine.1.push(Seg::Deref);
      let mut lent = Sig { params: sig.params.iter().map(all_shared).collect(), ret: None };
      lent.params.push(Ref('x', true, Box::new(Ref(l, false, Box::new(all_shared(&sig.at(q)))))));
      let at = lent.params.len() - 1;
      for r in lent.refs(q, false) {
        let n = imp_of(&lent, format!("let s = 'o: {r}; *p{at} = s; loop {{}}"), &mut src);
        other.entry((mine.clone(), q.clone())).or_default().push(n);
      }
    }
  }
  // all paths a path can come to name
  let close = |start: Vec<(Path, Vec<Vec<String>>)>, moves: &Moves, other: &Moves| -> Vec<(Path, Vec<Vec<String>>)> {
    // each with the conjunction of alternatives it takes
    let mut seen: Vec<(Path, Vec<Vec<String>>)> = start;
    let mut i = 0;
    while i < seen.len() {
      let (p, why) = seen[i].clone();
      i += 1;
      for (whole, ((from, to), imps)) in moves.iter().map(|m| (false, m)).chain(other.iter().map(|m| (true, m))) {
        if from.0 == p.0 && p.1.starts_with(&from.1) {
          let mut q = to.clone();
          if !whole { q.1.extend_from_slice(&p.1[from.1.len() ..]); }
          if !ps.contains(&q) || seen.len() > 400 { continue; }
          if why.contains(imps) { continue; }
          let mut w = why.clone();
          w.push(imps.clone());
          if w.len() > 3 { continue; }
          seen.push((q, w));
        }
      }
    }
    seen
  };
  let none = Moves::new();
  let targets = |start: Vec<(Path, Vec<Vec<String>>)>, moves: &Moves| -> Vec<Target> {
    close(start, moves, if std::ptr::eq(moves, &loose) { &other } else { &none }).into_iter().filter(|(q, _)| is_local(&caller.place[q])).map(|(q, w)| conj(w, caller.place[&q].clone())).collect()
  };
  // a write goes wherever what is written through can come to lead, if lifetimes alone decide
  let mut far = targets(write_paths, &loose);
  // (what a type argument is a lifetime of is not looked into, so a struct may hide a mutable reference of that lifetime)
  let hidden = Sig { params: sig.params.iter().map(exposed).collect(), ret: None };
  for p in &ps {
    if !is_local(&caller.place[p]) || hidden.at(p) == sig.at(p) && hidden.params[p.0] == sig.params[p.0] { continue; }
    let mut fresh = 0;
    let (pre, e, post) = lvalue(&format!("p{}", p.0), &hidden.params[p.0], &p.1, &mut fresh);
    let w = imp_of(&hidden, format!("{pre}{e} = unsafe {{ std::mem::zeroed() }};{post} loop {{}}"), &mut src);
    far.extend(close(vec![(p.clone(), vec![vec![w]])], &loose, &other).into_iter().filter(|(q, _)| q != p && is_local(&caller.place[q])).map(|(q, w)| conj(w, caller.place[&q].clone())));
  }
  cases.push((format!("f{id}_w"), Case { sig: id, what: "call".into(), text: format!("pub fn f{id}_w() {{ {}let r = {call}; }}", caller.decls), call: format!("c{id}"), allowed: far, targets: writes }));
  // what is reached through what the caller still has
  let mut seen = BTreeSet::new();
  for p in &ps {
    if sig.at(p) != Int { continue; }
    let Some(k) = p.1.iter().rposition(|s| *s == Seg::Deref) else { continue };
    // through a reference which lives in a variable of its own
    let h = (p.0, p.1[.. k].to_vec());
    if !matches!(sig.at(&h), Ref(_, true, _)) || !is_local(&caller.place[&h]) { continue; }
    let first = h.1.iter().rposition(|s| *s == Seg::Deref).unwrap();
    let owner = (p.0, p.1[..= first].to_vec());
    if !seen.insert(p.clone()) { continue; }
    let (base, bt) = (caller.place[&owner].0.clone(), sig.at(&owner));
    let mut fresh = 0;
    let (pre, e, post) = lvalue(&base, &bt, &p.1[first + 1 ..], &mut fresh);
    let name = format!("f{id}_s{}", seen.len());
    cases.push((name.clone(), Case { sig: id, what: "write".into(), text: format!("pub fn {name}() {{ {}let r = {call}; {pre}{e} = 99;{post} }}", caller.decls), call: format!("c{id}"),
      targets: targets(vec![(p.clone(), vec![])], &strict), allowed: targets(vec![(p.clone(), vec![])], &loose) }));
  }
  // what is reached through the result
  if sig.ret.is_some() {
    let mut start = vec![];
    let mut start_loose = vec![];
    let weak = Sig { params: sig.params.clone(), ret: sig.ret.as_ref().map(|r| shared_at(r, &[])) };
    let weaker = Sig { params: sig.params.iter().map(all_shared).collect(), ret: weak.ret.clone() };
    for q in &ps {
      if sig.at(q) != Int { continue; }
      let imps: Vec<String> = sig.refs(q, true).into_iter().map(|r| imp_of(sig, format!("'o: {r}"), &mut src)).collect();
      let mut more = imps.clone();
      for weak in [&weak, &weaker] { for r in weak.refs(q, false) { more.push(imp_of(weak, format!("'o: {r}"), &mut src)); } }
      start_loose.push((q.clone(), vec![more]));
      start.push((q.clone(), vec![imps]));
    }
    cases.push((format!("f{id}_r"), Case { sig: id, what: "write".into(), text: format!("pub fn f{id}_r() {{ {}let r = {call}; *r = 99; }}", caller.decls), call: format!("c{id}"),
      targets: targets(start, &strict), allowed: targets(start_loose, &loose) }));
  }
  (src, cases)
}
/// alternatives joined with `,`, what all has to hold joined with `&`
fn conj(w: Vec<Vec<String>>, m: Mem) -> Target {
  if w.is_empty() { return Target::Always(m); }
  Target::If(w.into_iter().map(|alts| alts.join("|")).collect::<Vec<_>>().join("&").split('\u{0}').map(|s| s.to_string()).collect(), m)
}
impl T {
  fn shape(&self) -> String { self.text().replace("'a ", "").replace("'b ", "").replace("'a", "").replace("'b", "") }
}

fn holds(alt: &str, ok: &BTreeSet<String>) -> bool { alt.split('&').all(|c| c.split('|').any(|i| ok.contains(i))) }

fn judge(src: &str, cases: &BTreeMap<String, Case>, counts: &mut BTreeMap<String, u64>, sampled: &mut bool) {
  let mut add = |k: &str, v: u64| *counts.entry(k.to_string()).or_insert(0) += v;
  session::with_bodies(src, &[], |tcx, items| {
    let mut ok = BTreeSet::new();
    for (name, def, _) in items {
      if name.starts_with('i') && name.contains('_') {
        add("implementations", 1);
        if session::borrowck_ok(tcx, *def).is_some() { add("implementations_accepted", 1); ok.insert(name.clone()); }
      }
    }
    for (name, def, body_id) in items {
      let Some(case) = cases.get(name) else { continue };
      add("programs", 1);
      let _w = Watch::start(src, name);
      let Some(facts) = session::borrowck_ok(tcx, *def) else { add("rejected_by_rustc", 1); continue };
      let p = Prog { tcx, def: *def, body_id: *body_id, facts };
      add("checked", 1);
      let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| one(tcx, &p, case, &ok, &mut add)));
      let vs = match r { Ok(v) => v, Err(_) => vec![("panic".to_string(), "the analysis panicked".to_string())] };
      let line = |f: &str| src.lines().find(|l| l.contains(&format!("fn {f}<"))).unwrap_or("").to_string();
      if vs.is_empty() {
        if !*sampled { *sampled = true; println!("{}", json!({"t": "sample", "family": "signatures", "src": format!("{} {}", line(&case.call), case.text), "counts": {}})); }
        continue;
      }
      let pre = format!("{PRELUDE}{}\n", line(&case.call));
      println!("{}", json!({"t": "viol", "family": "signatures", "index": case.sig, "prelude": pre, "src": case.text, "n": vs.len(), "viols": vs.iter().map(|(k, d)| json!([k, d])).collect::<Vec<_>>()}));
    }
  });
}

fn one<'tcx>(tcx: TyCtxt<'tcx>, p: &Prog<'tcx>, case: &Case, ok: &BTreeSet<String>, add: &mut impl FnMut(&str, u64)) -> Vec<(String, String)> {
  let body = &p.facts.body;
  // where it happens
  let mut at = None;
  for (bb, data) in body.basic_blocks.iter_enumerated() {
    for (i, s) in data.statements.iter().enumerate() {
      if case.what == "write" && let StatementKind::Assign(a) = &s.kind && let Rvalue::Use(Operand::Constant(c)) = &a.1
        && format!("{:?}", c.const_).contains("0x00000063") { at = Some(Location { block: bb, statement_index: i }); }
    }
    if case.what == "call" && let TerminatorKind::Call { func, .. } = &data.terminator().kind && let Some((d, _)) = func.const_fn_def() && tcx.def_path_str(d) == case.call {
      at = Some(Location { block: bb, statement_index: data.statements.len() });
    }
  }
  let Some(at) = at else { add("not_found", 1); if std::env::var("LOUD").is_ok() { use rustc_utils::BodyExt; eprintln!("NOTFOUND {} {}", case.text, body.to_string(tcx).unwrap()); } return vec![] };
  let results = infoflow::compute_flow(p.tcx, p.body_id, p.facts);
  let state = results.state_at(at);
  let mut out = vec![];
  let accepted = |ts: &[Target]| -> Vec<Mem> { ts.iter().filter_map(|t| match t {
    Target::Always(m) => Some(m.clone()),
    Target::If(alts, m) => alts.iter().any(|a| holds(a, ok)).then(|| m.clone()),
  }).collect() };
  let (demanded, allowed) = (accepted(&case.targets), accepted(&case.allowed));
  for v in &body.var_debug_info {
    let VarDebugInfoContents::Place(pl) = v.value else { continue };
    let n = v.name.as_str();
    if !n.starts_with('x') || !pl.projection.is_empty() { continue; }
    for place in pl.interior_places(tcx, body, p.def.to_def_id()) {
      if !place.projection.iter().all(|e| matches!(e, ProjectionElem::Field(..))) { continue; }
      // hidden insides of boxes and options belong to the whole
      let mut fields: Vec<u32> = vec![];
      let mut inside = false;
      for (base, e) in place.iter_projections() {
        let bt = base.ty(&body.local_decls, tcx).ty;
        inside |= bt.is_box() || bt.ty_adt_def().map(|a| a.is_enum()).unwrap_or(false);
        if let ProjectionElem::Field(f, _) = e { fields.push(f.as_u32()); }
      }
      if inside { continue; }
      let mem: Mem = (n.to_string(), fields);
      let want = demanded.iter().any(|a| overlap(a, &mem));
      let may = want || allowed.iter().any(|a| overlap(a, &mem));
      let got = results.analysis.deps_for(state, place).iter().any(|d| *d == LocationOrArg::Location(at));
      add("evaluations", 1);
      add("comparisons", 1);
      // what is asked about a reference is asked about what it refers to as well
      let plain = !tcx.any_free_region_meets(&place.ty(&body.local_decls, tcx).ty, |_| true);
      if want && !got || got && !may && plain {
        out.push((format!("{} {n}{:?}", if want { "missed" } else { "blamed" }, mem.1),
          if want { format!("{}: a function of this signature can change {n}{:?}, but it is not reported to depend on it", case.what, mem.1) }
          else { format!("{}: no function of this signature can change {n}{:?}, but it is reported to depend on it", case.what, mem.1) }));
      }
      if want { add("nontrivial", 1); }
    }
  }
  out
}
