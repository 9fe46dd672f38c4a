//! Exhaustive, bounded enumeration of the programs the analysis is checked on.
//!
//! A family is a prelude, a signature, initial `let`s, an alphabet of statements and a list of
//! tails.  Its programs are *all* statement sequences whose total weight (a simple statement
//! weighs 1, a compound weighs 1 plus its contents) is at most the bound, times all tails.
//! Programs that do not type- or borrow-check are discarded by rustc, not by us.

#[derive(Clone)]
pub struct Family {
  pub name: &'static str,
  pub prelude: &'static str,
  pub sig: &'static str,
  pub lets: &'static str,
  /// simple statements
  pub atoms: Vec<&'static str>,
  /// compound statements; each `@` is a hole filled with a (possibly empty) sequence
  pub compounds: Vec<&'static str>,
  /// statements allowed inside holes (indices into atoms); None = all
  pub tails: Vec<&'static str>,
  /// weight bounds for (quick, thorough)
  pub quick: usize,
  pub thorough: usize,
  /// at most this much weight inside one compound's holes
  pub inner: usize,
  /// compounds may nest this deep
  pub nest: usize,
  /// complete functions instead of an alphabet
  pub whole: Vec<&'static str>,
}

#[derive(Clone, Debug)]
pub enum Stmt { A(usize), C(usize, Vec<Vec<Stmt>>) }

impl Family {
  fn seqs(&self, weight: usize, nest: usize, min: usize) -> Vec<Vec<Stmt>> {
    // all sequences with total weight in min..=weight
    let mut by_w: Vec<Vec<Vec<Stmt>>> = vec![vec![vec![]]];
    let stmts = self.stmts(weight, nest);
    for w in 1 ..= weight {
      let mut cur = vec![];
      for (sw, s) in &stmts {
        if *sw <= w {
          for rest in &by_w[w - sw] {
            let mut v = vec![s.clone()];
            v.extend(rest.iter().cloned());
            cur.push(v);
          }
        }
      }
      by_w.push(cur);
    }
    by_w.into_iter().enumerate().filter(|(w, _)| *w >= min).flat_map(|(_, v)| v).collect()
  }

  fn stmts(&self, weight: usize, nest: usize) -> Vec<(usize, Stmt)> {
    let mut out: Vec<(usize, Stmt)> = (0 .. self.atoms.len()).map(|i| (1, Stmt::A(i))).collect();
    if nest == 0 || weight < 2 { return out; }
    let budget = (weight - 1).min(self.inner);
    for (ci, c) in self.compounds.iter().enumerate() {
      let holes = c.matches('@').count();
      let fills = self.seqs_weighted(budget, nest - 1);
      let mut partial: Vec<(usize, Vec<Vec<Stmt>>)> = vec![(0, vec![])];
      for _ in 0 .. holes {
        let mut next = vec![];
        for (w, p) in &partial {
          for (fw, f) in &fills {
            if w + fw <= budget {
              let mut q = p.clone();
              q.push(f.clone());
              next.push((w + fw, q));
            }
          }
        }
        partial = next;
      }
      for (w, p) in partial {
        if holes > 0 && w == 0 { continue; }
        out.push((1 + w, Stmt::C(ci, p)));
      }
    }
    out
  }

  fn seqs_weighted(&self, weight: usize, nest: usize) -> Vec<(usize, Vec<Stmt>)> {
    let stmts = self.stmts(weight, nest);
    let mut by_w: Vec<Vec<Vec<Stmt>>> = vec![vec![vec![]]];
    for w in 1 ..= weight {
      let mut cur = vec![];
      for (sw, s) in &stmts {
        if *sw <= w {
          for rest in &by_w[w - sw] {
            let mut v = vec![s.clone()];
            v.extend(rest.iter().cloned());
            cur.push(v);
          }
        }
      }
      by_w.push(cur);
    }
    by_w.into_iter().enumerate().flat_map(|(w, v)| v.into_iter().map(move |s| (w, s))).collect()
  }

  fn render(&self, ss: &[Stmt], out: &mut String) {
    for s in ss {
      match s {
        Stmt::A(i) => { out.push_str(self.atoms[*i]); out.push(' '); }
        Stmt::C(i, holes) => {
          let mut parts = self.compounds[*i].split('@');
          out.push_str(parts.next().unwrap());
          for h in holes {
            self.render(h, out);
            out.push_str(parts.next().unwrap());
          }
          out.push(' ');
        }
      }
    }
  }

  /// All program bodies (without the fn header) within the bound.
  pub fn programs(&self, weight: usize) -> Vec<String> {
    if !self.whole.is_empty() { return self.whole.iter().map(|s| s.to_string()).collect(); }
    let mut out = vec![];
    for seq in self.seqs(weight, self.nest, 0) {
      for t in &self.tails {
        let mut b = String::from(self.lets);
        b.push(' ');
        self.render(&seq, &mut b);
        b.push_str(t);
        out.push(b);
      }
    }
    out
  }
}

pub fn function(f: &Family, i: usize, body: &str) -> String {
  if !f.whole.is_empty() { return format!("{}\n", body.replace("NAME", &format!("f{i}"))); }
  // the signature contains `NAME`
  format!("{} {{ {} }}\n", f.sig.replace("NAME", &format!("f{i}")), body)
}

macro_rules! whole {
  ($name:expr, $prelude:expr, [$($a:expr),* $(,)?]) => {
    Family { name: $name, prelude: $prelude, sig: "", lets: "", atoms: vec![], compounds: vec![], tails: vec![], quick: 0, thorough: 0, inner: 0, nest: 0, whole: vec![$($a),*] }
  };
}
macro_rules! fam {
  ($name:expr, $prelude:expr, $sig:expr, $lets:expr, [$($a:expr),* $(,)?], [$($c:expr),* $(,)?], [$($t:expr),* $(,)?], $q:expr, $th:expr, $inner:expr, $nest:expr) => {
    Family { name: $name, prelude: $prelude, sig: $sig, lets: $lets, atoms: vec![$($a),*], compounds: vec![$($c),*],
      tails: vec![$($t),*], quick: $q, thorough: $th, inner: $inner, nest: $nest, whole: vec![] }
  };
}

/// In families whose text contains this, the cases are the closures of the functions.
pub const CLOSURE_BODIES: &str = "// the closures are analyzed";
pub const BODIES_PRELUDE: &str = "// the closures are analyzed
pub struct G<'a> { pub p: &'a mut i32, pub n: i32 }
pub fn set(d: &mut i32, v: i32) { *d = v; }
pub fn pick<'a>(c: bool, d: &'a mut i32, e: &'a mut i32) -> &'a mut i32 { if c { d } else { e } }
pub fn ro<'a>(d: &'a i32, e: &'a i32) -> &'a i32 { if *d > 0 { d } else { e } }
pub fn gp<'x, 'a>(g: &'x mut G<'a>) -> &'x mut &'a mut i32 { &mut g.p }
pub fn fst(p: &mut (i32, i32)) -> &mut i32 { &mut p.0 }
";
pub const CALL_PRELUDE: &str = "
#[derive(Clone, Copy)] pub struct P { pub u: i32, pub v: i32 }
pub struct W<'a> { pub r: &'a mut i32 }
pub struct R2<'a, 'b> { pub p: &'a mut i32, pub q: &'b mut i32 }
pub fn add(a: i32, b: i32) -> i32 { a + b }
pub fn konst() -> i32 { 7 }
pub fn set(d: &mut i32, v: i32) { *d = v; }
pub fn cond_set(d: &mut i32, v: i32, c: bool) { if c { *d = v; } }
pub fn mv(d: &mut i32, s: &i32) { *d = *s; }
pub fn sw(a: &mut i32, b: &mut i32) { let t = *a; *a = *b; *b = t; }
pub fn rd(s: &i32) -> i32 { *s }
pub fn bump(d: &mut i32) -> i32 { *d += 1; *d }
pub fn id<'a>(d: &'a mut i32) -> &'a mut i32 { d }
pub fn fst<'a, 'b>(d: &'a mut i32, e: &'b mut i32) -> &'a mut i32 { let _ = e; d }
pub fn pick<'a>(c: bool, d: &'a mut i32, e: &'a mut i32) -> &'a mut i32 { if c { d } else { e } }
pub fn ro<'a>(d: &'a i32, e: &'a i32) -> &'a i32 { if *d > *e { d } else { e } }
pub fn store<'a>(d: &mut &'a mut i32, s: &'a mut i32) { *d = s; }
pub fn wrap<'a>(d: &'a mut i32) -> W<'a> { W { r: d } }
pub fn unwrap_w<'a>(w: W<'a>) -> &'a mut i32 { w.r }
pub fn put<'a>(w: &mut W<'a>, d: &'a mut i32) { w.r = d; }
pub fn wset(w: &mut W<'_>, v: i32) { *w.r = v; }
pub fn fld<'a>(p: &'a mut P) -> &'a mut i32 { &mut p.u }
pub fn pset(p: &mut P, v: i32) { p.v = v; }
pub fn mk(u: i32, v: i32) -> P { P { u, v } }
pub fn opt<'a>(c: bool, d: &'a mut i32) -> Option<&'a mut i32> { if c { Some(d) } else { None } }
pub fn both<'a, 'b>(d: &'a mut i32, e: &'b mut i32) -> (&'a mut i32, &'b mut i32) { (d, e) }
";

pub fn families() -> Vec<Family> {
  vec![
    // F1: scalars, branches, loops
    fam!("scalar", "", "pub fn NAME(a: i32, b: i32, c: bool) -> i32", "let mut x = a; let mut y = 0;",
      ["x = a;", "x = b;", "x = y;", "y = x;", "y += b;", "x = 1;"],
      ["if c { @ } else { @ }", "if x > 0 { @ }", "if a > 0 { if c { @ } }", "while y < 2 { y += 1; @ }", "match (c, x > 1) { (true, true) => { @ } _ => { @ } }"],
      ["x", "y"], 3, 4, 2, 2),
    // F2: references to locals
    fam!("refs", "", "pub fn NAME(a: i32, b: i32, c: bool) -> i32", "let mut x = a; let mut y = 1; let mut z = 2; let mut r = &mut x; ",
      ["r = &mut y;", "*r = b;", "*r += z;", "x = 3;", "z = x;", "z = *r;", "y = z;", "let q = &mut *r; *q = a;", "let q = &mut r; **q = b;",
       "let q = &mut r; *q = &mut y;", "let s = &x; z = *s;", "r = if c { &mut y } else { &mut z };"],
      ["if c { @ }", "if *r > 0 { @ } else { @ }", "while z < 3 { z += 1; @ }"],
      ["x", "*r", "z"], 3, 4, 2, 1),
    fam!("refs2", "", "pub fn NAME(a: i32, c: bool) -> i32", "let mut x = 0; let mut y = 1; let mut z = 2; let mut r = &mut x; let mut p = &mut y; ",
      ["*r = a;", "*p = 4;", "std::mem::swap(r, p);", "std::mem::swap(&mut r, &mut p);", "let rr = &mut r; **rr = a;", "let rr = if c { &mut r } else { &mut p }; **rr = 5;",
       "*r = *p;", "let s = &*r; z = *s;", "let s = &&*p; z = **s;", "z = a;", "let t = (&mut *r, &mut *p); *t.0 = *t.1;", "let mut t = (&mut *r, &mut *p); t.0 = t.1; *t.0 = a;"],
      ["if c { @ }", "if *p > 1 { @ }"],
      ["x", "y", "*r + z"], 3, 4, 2, 1),
    // F3: tuples, structs
    fam!("fields", "#[derive(Clone, Copy)] pub struct T { pub u: i32, pub v: (i32, i32) }\n",
      "pub fn NAME(a: i32, b: i32, c: bool) -> i32", "let mut t = T { u: a, v: (1, b) }; let mut s = T { u: 0, v: (0, 0) }; let mut z = 5; ",
      ["t.u = b;", "t.v.0 = a;", "t.v = (z, t.u);", "s = t;", "t = s;", "s.v = t.v;", "z = s.v.1;", "let r = &mut t; r.v.1 = z;", "let r = &mut t.v; r.0 = b;",
       "let r = &mut t.v; *r = (0, a);", "let r = &mut t; *r = T { u: z, v: (2, 3) };", "let T { u, v: (p, _) } = t; z = u + p;", "let (r, q) = (&mut t.u, &mut t.v.0); *r = *q;"],
      ["if c { @ } else { @ }", "if t.v.0 > 1 { @ }"],
      ["z", "s.u", "t.v.1", "t.v.0"], 2, 3, 2, 1),
    // F4: calls
    fam!("calls", CALL_PRELUDE, "pub fn NAME(a: i32, c: bool) -> i32", "let mut x = a; let mut y = 1; let mut z = 2; let mut p = mk(a, 3); ",
      ["set(&mut x, y);", "cond_set(&mut x, z, c);", "mv(&mut x, &y);", "sw(&mut x, &mut y);", "z = rd(&x);", "y = add(x, z);", "z = bump(&mut x);", "*id(&mut x) = z;",
       "*fst(&mut x, &mut y) = a;", "*pick(c, &mut x, &mut y) = 9;", "z = *ro(&x, &y);", "{ let mut r = &mut x; store(&mut r, &mut y); *r = a; }",
       "{ let w = wrap(&mut x); *w.r = y; }", "{ let mut w = wrap(&mut x); put(&mut w, &mut y); wset(&mut w, z); }", "{ let r = unwrap_w(wrap(&mut y)); *r = x; }",
       "*fld(&mut p) = y;", "pset(&mut p, x);", "p = mk(y, p.u);", "z = p.v;", "z = konst();", "if let Some(r) = opt(c, &mut x) { *r = y; }",
       "{ let (r, s) = both(&mut x, &mut y); *r = *s; }", "{ let mut k = R2 { p: &mut x, q: &mut y }; k.p = k.q; *k.p = z; }", "y = x;"],
      ["if c { @ }", "while z < 3 { z += 1; @ }"],
      ["x", "y", "z", "p.u"], 2, 3, 1, 1),
    // F5: enums
    fam!("enums", "#[derive(Clone, Copy)] pub enum E { A(i32), B(i32, i32), C }\n", "pub fn NAME(e: E, o: Option<i32>, a: i32) -> i32", "let mut x = 0; let mut m = e; let mut p = o; ",
      ["if let Some(v) = p { x = v; }", "if let E::A(v) = m { x = v; }", "m = E::A(x);", "m = E::B(x, a);", "p = Some(a);", "p = None;", "if let Some(v) = &mut p { *v = a; }",
       "if let E::B(v, _) = &mut m { *v = x; }", "x = match m { E::A(v) => v, E::B(_, w) => w, E::C => a };", "if let (Some(v), E::B(_, w)) = (p, m) { x = v + w; }", "p = p.take();",
       "if let Some(v) = p.as_mut() { *v += 1; }", "x = p.unwrap_or(a);", "match m { E::C => { x = 1; } _ => {} }", "let Some(v) = p else { return a; }; x = v;", "p = if let E::A(v) = m { Some(v) } else { None };"],
      ["if let Some(v) = p { @ }", "match m { E::A(_) => { @ } E::B(..) => { @ } E::C => {} }"],
      ["x", "if let E::B(v, _) = m { v } else { x }"], 2, 3, 2, 1),
    // F6: arrays, boxes, vectors
    fam!("heap", "", "pub fn NAME(a: i32, i: usize, j: usize) -> i32", "let mut v = [0, a]; let mut b = Box::new(a); let mut w = Vec::new(); w.push(1); w.push(a); let mut x = 0; ",
      ["v[i] = a;", "x = v[j];", "v[0] = x;", "*b = x;", "x = *b;", "b = Box::new(x);", "w.push(x);", "w[i] = x;", "x = w[j];", "let r = &mut v[i]; *r = 5;", "let r = &mut *b; *r = v[1];",
       "let r = &mut w; r[0] = a;", "let b2 = b; x = *b2; b = Box::new(1);", "x = w.len() as i32;", "if let Some(p) = w.pop() { x = p; }", "let s = &v[..]; x = s[j];", "let r = &mut b; **r = a;"],
      ["if x > 0 { @ }"],
      ["x", "v[0]", "*b", "w[0]"], 2, 2, 1, 1),
    // F7: closures
    fam!("closures", "", "pub fn NAME(a: i32, c: bool) -> i32", "let mut x = a; let mut y = 1; let mut z = 0; ",
      ["let mut f = || x = y; f();", "let f = || x + y; z = f();", "let mut f = |k: i32| { y = k; k + x }; z = f(a);", "let f = move || x; x = 3; z = f();", "let mut f = || { if c { x = 2; } }; f();", "x = a;", "y = x;", "z = x;",
       "let r = &mut x; let mut f = || { *r = y; }; f(); f();", "let f = |p: &mut i32| { *p = a; }; f(&mut y);", "let mut f = || { let r = &mut x; *r += z; r }; f();", "let g = |k: i32| k + 1; z = g(y);", "let mut t = (x, y); let mut f = || t.0 = z; f(); x = t.0;"],
      ["if c { @ }"],
      ["x", "y", "z"], 2, 3, 1, 1),
    // functions which are given closures
    fam!("higher", "
pub fn once<F: FnOnce(i32) -> i32>(f: F, v: i32) -> i32 { f(v) }
pub fn many<F: FnMut(i32)>(mut f: F, v: i32) { f(v); f(1); }
pub fn dynm(f: &mut dyn FnMut(i32), v: i32) { f(v); }
pub fn pure<F: Fn(i32) -> i32>(f: F, g: impl Fn(i32) -> i32, v: i32) -> i32 { f(g(v)) }
pub fn byref<F: FnMut(&mut i32)>(f: &mut F, d: &mut i32) { f(d); }
pub fn boxed(f: Box<dyn FnOnce(i32) -> i32 + '_>, v: i32) -> i32 { f(v) }
pub fn nest<F: FnOnce(i32) -> i32>(f: F, v: i32) -> i32 { once(f, v) }
pub fn inc(v: i32) -> i32 { v + 1 }
pub fn mkadd(k: i32) -> impl Fn(i32) -> i32 { move |v| v + k }
", "pub fn NAME(a: i32, c: bool) -> i32", "let mut x = a; let mut y = 1; let mut z = 0; ",
      ["{ let r = &mut x; z = once(move |v| { let q = r; *q = v + y; v }, a); }", "z = once(|v| v + x, y);", "z = once(|v| { x = v; y }, a);", "many(|v| y += v, x);", "many(|v| { if c { x = v; } }, z);", "dynm(&mut |v| x = v, y);",
       "z = pure(|v| v + x, |v| v + y, a);", "{ let mut f = |d: &mut i32| { *d = y; }; byref(&mut f, &mut x); }", "{ let mut f = |d: &mut i32| { y = *d; }; byref(&mut f, &mut x); }", "z = boxed(Box::new(|v| v + y), x);",
       "{ let r = &mut y; z = nest(move |v| { let q = r; *q = v; 3 }, x); }", "z = once(inc, x);", "z = mkadd(x)(y);", "{ let f = mkadd(y); x = pure(&f, inc, a); }", "x = y;", "y = a;"],
      ["if c { @ }"],
      ["x", "y", "z"], 2, 3, 1, 1),
    // F8: loops with break / continue / nesting
    fam!("loops", "", "pub fn NAME(a: i32, b: i32, c: bool) -> i32", "let mut x = a; let mut y = 0; let mut i = 0; ",
      ["x = y;", "y = b;", "y += x;", "x = i;"],
      ["while i < 2 { i += 1; @ if c { break; } @ }", "while i < 2 { i += 1; if x > 0 { continue; } @ }", "loop { @ i += 1; if i > y { break; } @ if i > 2 { break; } }", "for k in 0..2 { @ if k == b { break; } @ }",
       "if c { @ } else { @ }", "x = loop { @ if i >= 2 { break y; } i += 1; };", "'o: while i < 2 { i += 1; while y < 1 { y += 1; @ if a > 0 { break 'o; } } @ }"],
      ["x", "y"], 3, 4, 2, 1),
    // F9: reference parameters
    fam!("params", "pub struct S<'a> { pub f: &'a mut i32, pub g: i32 } pub fn rds(s: &S) -> i32 { *s.f } pub fn sets(s: &mut S, v: i32) -> i32 { *s.f = v; s.g }\n",
      "pub fn NAME<'a>(x: &mut i32, y: &i32, t: &mut (i32, i32), s: &mut S<'a>, v: i32)", "",
      ["*x = v;", "*x = *y;", "t.0 = *x;", "t.1 = v;", "*x = t.1;", "*s.f = v;", "s.g = *x;", "*x = *s.f;", "let r = &mut *x; *r = t.0;", "let r = &mut t.0; *r = 3;", "let r = &mut *s.f; *r = *y;", "*t = (v, *y);", "std::mem::swap(x, &mut t.1);",
       "let q = &mut *t; q.1 = s.g;", "let r = &mut *s; r.g = v; *r.f = *x;", "if v > 0 { *x = 1; }", "let u = *t; *x = u.1;", "*x = rds(s);", "t.1 = sets(s, *x);", "let q = S { f: &mut *x, g: v }; *q.f = t.0; s.g = rds(&q);"],
      ["if *y > 0 { @ }", "if t.0 > 0 { @ } else { @ }"],
      [""], 2, 3, 1, 1),
    fam!("params2", CALL_PRELUDE, "pub fn NAME<'a>(x: &mut &'a mut i32, y: &'a mut i32, o: Option<&mut i32>, p: &mut P, v: i32) -> i32", "let mut z = v; ",
      ["**x = z;", "*x = y;", "*y = z;", "z = **x;", "if let Some(r) = o { *r = z; }", "p.u = z;", "z = p.v;", "*p = mk(z, p.u);", "let r = &mut **x; *r = p.u;", "store(x, y);", "sw(*x, &mut z);", "z = *y;", "set(fld(p), z);", "let r = fld(p); *r = **x;"],
      ["if v > 0 { @ }", "if **x > 0 { @ }"],
      ["z", "**x", "p.u"], 2, 3, 1, 1),
    // F10: traits and generics at concrete types
    fam!("traits", "
#[derive(Clone, Copy)] pub struct A(pub i32); #[derive(Clone, Copy)] pub struct B(pub i32, pub i32);
pub trait Tr { fn get(&self) -> i32; fn put(&mut self, v: i32); fn slot(&mut self) -> &mut i32; fn fresh(v: i32) -> Self; }
impl Tr for A { fn get(&self) -> i32 { self.0 } fn put(&mut self, v: i32) { self.0 = v; } fn slot(&mut self) -> &mut i32 { &mut self.0 } fn fresh(v: i32) -> Self { A(v) } }
impl Tr for B { fn get(&self) -> i32 { self.1 } fn put(&mut self, v: i32) { self.0 = v; self.1 = v; } fn slot(&mut self) -> &mut i32 { &mut self.1 } fn fresh(v: i32) -> Self { B(v, 0) } }
pub fn via<T: Tr>(t: &mut T, v: i32) -> i32 { t.put(v); t.get() }
pub fn gid<T>(t: T) -> T { t }
pub fn gswap<T>(a: &mut T, b: &mut T) { std::mem::swap(a, b); }
", "pub fn NAME(a: i32, c: bool) -> i32", "let mut p = A(a); let mut q = B(1, a); let mut p2 = A(2); let mut z = 0; ",
      ["p.put(z);", "z = q.get();", "*q.slot() = p.0;", "z = via(&mut p, q.0);", "z = via(&mut q, a);", "p = gid(p2);", "gswap(&mut p, &mut p2);", "q = Tr::fresh(p.0);", "*gid(&mut z) = q.1;", "let r = gid(&mut p2); r.put(a);", "p2.0 = z;", "q = B(p2.0, q.0);"],
      ["if c { @ }"],
      ["z", "p.0", "q.1"], 2, 3, 1, 1),
    // F11: function pointers
    fam!("fnptr", "pub fn inc(x: i32) -> i32 { x + 1 } pub fn two(x: i32) -> i32 { let _ = x; 2 } pub fn w1(d: &mut i32) { *d = 1; } pub fn w2(d: &mut i32) { *d = 2; }\n",
      "pub fn NAME(a: i32, c: bool) -> i32", "let mut f: fn(i32) -> i32 = inc; let mut g: fn(&mut i32) = w1; let mut x = a; ",
      ["f = two;", "x = f(a);", "g(&mut x);", "g = w2;", "f = if c { inc } else { two };", "x = a;", "let h = f; x = h(x);", "g = if a > 0 { w1 } else { w2 };"],
      ["if c { @ }"],
      ["x"], 3, 4, 2, 1),
    // F12: array and slice patterns, slices, nested containers
    fam!("patterns", "", "pub fn NAME(a: i32, i: usize, s: &mut [i32], o: Option<&mut (i32, i32)>) -> i32", "let mut v = [a, 1]; let mut x = 0; let mut n = [[0, a], [1, 2]]; ",
      ["let [p, q] = v; x = p + q;", "let [p, _] = &mut v; *p = x;", "if let [p, ..] = s { *p = x; }", "if let [.., q] = &*s { x = *q; }", "s[0] = a;", "x = s[1];", "v = [x, a];", "n[i][0] = x;", "n[0] = v;", "x = n[1][i];", "let r = &mut n[i]; r[1] = a;",
       "if let Some((p, _)) = o { *p = x; }", "if let Some(t) = o { x = t.1; t.0 = a; }", "let r = &mut *s; r[0] = v[i];", "if let Some(p) = s.get_mut(i) { *p = a; }", "x = v[i];", "v[i] = x;", "if let [p, q] = &mut v { *q = *p; }"],
      ["if x > 0 { @ }"],
      ["x", "v[0]", "s[0]", "n[0][1]"], 2, 3, 1, 1),
    // F13: structs holding references, nested lifetimes
    fam!("holders", "
pub struct H<'a> { pub r: &'a mut i32, pub k: i32 }
pub struct HH<'a, 'b> { pub h: &'b mut H<'a>, pub o: Option<&'a mut i32> }
pub struct Rd<'a>(pub &'a i32, pub &'a (i32, i32));
impl<'a> H<'a> { pub fn new(r: &'a mut i32, k: i32) -> Self { H { r, k } } pub fn slot(&mut self) -> &mut i32 { self.r } pub fn into(self) -> &'a mut i32 { self.r } pub fn put(&mut self, v: i32) { *self.r = v; self.k = v; } }
impl<'a> Rd<'a> { pub fn fst(&self) -> &'a i32 { self.0 } pub fn snd(&self) -> i32 { self.1.1 } }
pub fn rdh(h: H<'_>) -> i32 { *h.r }
pub fn rdh2(h: H<'_>, d: &mut i32) { *d = *h.r }
pub fn rdt(t: (&mut i32, i32)) -> i32 { *t.0 }
pub fn mvt<'a>(t: (&'a mut i32, i32)) -> H<'a> { H { r: t.0, k: t.1 } }
", "pub fn NAME(a: i32, c: bool) -> i32", "let mut x = a; let mut y = 1; let mut z = 2; let mut t = (a, 3); ",
      ["let mut h = H::new(&mut x, z); *h.slot() = y;", "let mut h = H { r: &mut x, k: z }; h.put(y); z = h.k;", "*H::new(&mut y, a).into() = z;", "let mut h = H { r: &mut x, k: 0 }; h.r = &mut y; *h.r = z;",
       "let mut h = H { r: &mut x, k: 0 }; let g = HH { h: &mut h, o: Some(&mut y) }; *g.h.r = 4; if let Some(p) = g.o { *p = z; }", "let mut h = H { r: &mut x, k: 0 }; let mut g = HH { h: &mut h, o: None }; g.o = Some(&mut t.0); g.h.k = z; z = h.k;",
       "let r = Rd(&x, &t); z = *r.fst();", "let r = Rd(&y, &t); z = r.snd();", "let mut arr = [&mut x, &mut y]; *arr[0] = z;", "let mut arr = [&x, &y]; arr[0] = &t.0; z = *arr[1];", "let (p, q) = (&mut t.0, &mut t.1); std::mem::swap(p, q);",
       "let mut o = Some(&mut x); if let Some(p) = o.take() { *p = y; }", "let mut h = H { r: &mut x, k: 0 }; let r = if c { h.slot() } else { &mut y }; *r = 8;", "let b = Box::new(H { r: &mut t.1, k: 0 }); *b.r = z;", "y = t.1;", "x = z;",
       "let h = H { r: &mut x, k: 0 }; *h.r = y; z = rdh(h);", "let h = H::new(&mut y, 0); *h.r = a; rdh2(h, &mut z);", "let u = (&mut t.1, 1); *u.0 = z; y = rdt(u);", "let u = (&mut x, z); *u.0 = y; let h = mvt(u); *h.r += h.k; t.0 = h.k;"],
      ["if c { @ }"],
      ["x", "y", "z", "t.0"], 2, 3, 1, 1),
    // F14: raw pointers
    fam!("rawptr", "", "pub fn NAME(a: i32, c: bool) -> i32", "let mut x = a; let mut y = 1; let mut z = 0; let mut t = (a, 2); ",
      ["let p = &mut x as *mut i32; unsafe { *p = y; }", "let p = &raw mut y; unsafe { *p = z; }", "let p = &x as *const i32; z = unsafe { *p };", "let p = &mut t as *mut (i32, i32); unsafe { (*p).1 = y; }",
       "let mut p = &mut x as *mut i32; if c { p = &mut y; } unsafe { *p = a; }", "x = z;", "y = t.1;", "let p = &mut x as *mut i32; let r = unsafe { &mut *p }; *r = y;"],
      ["if c { @ }"],
      ["x", "y", "z", "t.1"], 2, 3, 1, 1),
    // F15: one side of a lifetime relation per parameter
    fam!("lifetimes", "
pub fn l1<'a, 'b: 'a>(x: &'a mut i32, y: &'b mut i32, c: bool) -> &'a mut i32 { if c { x } else { y } }
pub fn l2<'a>(t: &'a mut (i32, i32), c: bool) -> &'a mut i32 { if c { &mut t.0 } else { &mut t.1 } }
pub fn l3<'a, 'b>(d: &'b mut &'a mut i32) -> &'b mut i32 { &mut **d }
pub fn l4<'a>(v: &mut Vec<&'a mut i32>, x: &'a mut i32) { v.push(x); }
pub fn l5<'a>(x: &'a i32) -> Option<&'a i32> { if *x > 0 { Some(x) } else { None } }
pub fn l6<'a, 'b>(p: (&'a mut i32, &'b mut i32)) -> &'b mut i32 { *p.0 = 5; p.1 }
pub fn l7<'a>(d: &mut Option<&'a mut i32>, x: &'a mut i32) { *d = Some(x); }
", "pub fn NAME(a: i32, c: bool) -> i32", "let mut x = a; let mut y = 1; let mut z = 2; let mut t = (a, 3); ",
      ["*l1(&mut x, &mut y, c) = z;", "*l2(&mut t, c) = z;", "{ let mut r = &mut x; *l3(&mut r) = y; }", "{ let mut v = Vec::new(); l4(&mut v, &mut x); l4(&mut v, &mut y); *v[0] = z; }", "if let Some(p) = l5(&x) { z = *p; }",
       "*l6((&mut x, &mut y)) = t.0;", "{ let mut o = None; l7(&mut o, &mut y); if let Some(p) = o { *p = t.1; } }", "z = x;", "t.1 = y;", "{ let r = &mut t.0; *l1(r, &mut x, c) = z; }", "{ let s = l1(&mut x, &mut y, true); let u = &mut *s; *u += z; }"],
      ["if c { @ }"],
      ["x", "y", "z", "t.1"], 2, 3, 1, 1),
    // F16: match shapes: guards, bindings, nesting, ranges
    fam!("matching", "#[derive(Clone, Copy)] pub enum K { N, L(i32), D { p: i32, q: (bool, i32) } }\n", "pub fn NAME(k: K, a: i32, c: bool) -> i32", "let mut x = 0; let mut y = a; let mut m = k; ",
      ["match y { 0 => x = 1, 1 | 2 => x = 2, _ => {} }", "match m { K::L(v) if v > a => x = v, K::D { p, .. } => x = p, _ => {} }", "match m { K::D { q: (true, v), .. } => { y = v; } _ => {} }", "match (y, c) { (0, _) => x = 3, (_, true) => y = 4, _ => x = y }",
       "if let K::D { q, .. } = &mut m { q.1 = x; }", "m = K::L(y);", "m = K::D { p: x, q: (c, y) };", "if let K::L(v @ 1..=2) = m { x = v; }", "x = if let K::N = m { y } else { 1 };", "let n = m; if let K::L(v) = n { y = v; }", "if c && y > 0 { x = 5; }", "if c || x > 0 { y = 6; }", "y = x;", "let f = |k: K| matches!(k, K::L(_)); if f(m) { y = 7; }"],
      ["match m { K::L(_) => { @ } _ => { @ } }", "if y == 1 { @ }"],
      ["x", "y"], 2, 3, 1, 1),
    // F17: early returns and `?`
    fam!("early", "pub fn o1(a: i32) -> Option<i32> { if a > 0 { Some(a) } else { None } } pub fn r1(d: &mut i32, a: i32) -> Result<i32, i32> { if a > 0 { *d = a; Ok(a) } else { Err(*d) } } pub fn o2<'a>(d: &'a mut i32, c: bool) -> Option<&'a mut i32> { if c { Some(d) } else { None } }\n",
      "pub fn NAME(a: i32, c: bool, o: Option<i32>) -> Option<i32>", "let mut x = a; let mut y = 1; let mut z = 2; ",
      ["x = o?;", "y = o1(x)?;", "if c { return None; }", "if x > 1 { return Some(y); }", "*o2(&mut z, c)? = a;", "z = x;", "y = z;", "x = r1(&mut y, a).ok()?;", "let Some(v) = o else { return Some(z); }; x = v;"],
      ["if c { @ }", "while y < 3 { y += 1; @ }"],
      ["Some(x)", "let v = o1(y)?; Some(v + z)"], 2, 3, 2, 1),
    // F18: iterating over arrays, slices and vectors
    fam!("iters", "pub fn each(s: &mut [i32], v: i32) { s[0] = v; } pub fn tot(s: &[i32]) -> i32 { s[0] + s[1] }\n",
      "pub fn NAME(a: i32, v: &mut [i32; 2]) -> i32", "let mut w = [a, 1]; let mut x = 0; let mut y = 1; let mut b = Vec::new(); b.push(a); b.push(0); ",
      ["for k in &w { x += *k; }", "for k in &mut w { *k = y; }", "for k in v.iter_mut() { *k += a; }", "for k in v.iter() { if *k > 0 { y = 3; } }", "for k in &mut b { *k = x; }", "let mut i = w.iter(); if let Some(k) = i.next() { x = *k; }",
       "let mut i = w.iter_mut(); let p = i.next(); if let Some(q) = i.next() { *q = y; } if let Some(p) = p { *p = x; }", "each(&mut w, y);", "each(v, x);", "x = tot(&b);", "y = tot(&w);", "each(&mut b[..], a);", "y = x;", "let mut n = 0; while n < 2 { w[n] = v[n]; n += 1; }"],
      ["if a > 0 { @ }", "for k in &w { if *k > 0 { @ } }"],
      ["x", "y", "w[1]", "v[0]", "b[1]"], 2, 2, 1, 1),
    // F19: callees of many shapes, for the recursive mode
    fam!("callees", "
pub mod m { pub struct H { pub v: i32, p: i32, q: i32 } impl H { pub fn new(a: i32, b: i32) -> H { H { p: a, v: 0, q: b } } pub fn p(&self) -> i32 { self.p } pub fn q(&self) -> i32 { self.q } pub fn setp(&mut self, a: i32) { self.p = a; } pub fn mix(&mut self, o: &H) { self.q = o.p; } pub fn slot(&mut self) -> &mut i32 { &mut self.q } } }
use m::H;
#[derive(Clone, Copy)] pub enum E { A(i32, i32), B(i32) }
pub struct G<'a> { pub r: &'a mut i32, pub n: i32 }
pub fn over(d: &mut i32, e: &mut i32) { *e = *d; *d = 0; }
pub fn rep<'a>(mut d: &'a mut i32, e: &'a mut i32, c: bool) { if c { d = e; } *d = 4; }
pub fn first(x: i32, c: bool) -> E { if c { return E::B(x); } E::A(1, x) }
pub fn part(e: &mut E, v: i32) { if let E::A(_, b) = e { *b = v; } }
pub fn get(e: &E) -> i32 { match e { E::A(a, _) => *a, E::B(b) => *b } }
pub fn chain(d: &mut i32, v: i32) -> i32 { let mut t = v; over(&mut t, d); inner(d); *d + t }
pub fn inner(d: &mut i32) { *d += 1; }
pub fn cnt(n: i32, d: &mut i32) -> i32 { let mut i = 0; while i < n { i += 1; if i == *d { break; } } i }
pub fn mkg<'a>(d: &'a mut i32, n: i32) -> G<'a> { *d += n; G { r: d, n } }
pub fn useg(g: &mut G<'_>, k: i32) -> i32 { *g.r = k; g.n = *g.r; g.n }
pub fn two(a: i32, b: i32) -> (i32, i32) { (b, a) }
pub fn pairs(t: &mut (i32, i32), u: (i32, i32)) -> (i32, (i32, i32)) { t.0 = u.1; (t.1, u) }
pub fn rec(n: i32, d: &mut i32) { if n > 0 { *d += n; rec(n - 1, d); } }
pub fn arr(a: &mut [i32; 2], i: usize, v: i32) { if i < 2 { a[i] = v; } }
pub fn bx(b: &mut Box<i32>, v: i32) -> Box<i32> { let o = **b; **b = v; Box::new(o) }
pub fn cl(f: impl Fn(i32) -> i32, v: i32) -> i32 { f(v) }
pub fn gen<T: Copy>(d: &mut T, e: &mut T) { let t = *d; *d = *e; *e = t; }
", "pub fn NAME(a: i32, c: bool) -> i32", "let mut x = a; let mut y = 1; let mut z = 2; let mut h = H::new(a, 1); let mut k = H::new(2, 3); let mut e = first(a, c); let mut t = (a, 5); ",
      ["over(&mut x, &mut y);", "rep(&mut x, &mut y, c);", "e = first(x, c);", "part(&mut e, y);", "z = get(&e);", "z = chain(&mut x, y);", "z = cnt(x, &mut y);", "{ let g = mkg(&mut x, y); *g.r = z; }", "{ let mut g = mkg(&mut y, a); z = useg(&mut g, x); t.1 = g.n; }",
       "t = two(x, y);", "{ let (p, (q, _)) = pairs(&mut t, (x, y)); z = p + q; }", "rec(x, &mut y);", "{ let mut v = [x, y]; arr(&mut v, 1, z); x = v[0]; y = v[1]; }", "{ let mut b = Box::new(x); y = *bx(&mut b, z); x = *b; }", "z = cl(|v| v + x, y);", "gen(&mut x, &mut z);", "gen(&mut t, &mut (x, y));",
       "h = H::new(x, y);", "z = h.p();", "z = h.q();", "h.setp(x);", "h.v = y;", "h.mix(&k);", "k.setp(z);", "*h.slot() = x;", "gen(&mut t.0, &mut t.1);"],
      ["if c { @ }"],
      ["x", "y", "z", "h.v", "t.0"], 2, 2, 1, 1),
    // F20: generic functions
    fam!("generic", "
pub trait Tr: Copy { const K: i32; fn get(&self) -> i32; fn put(&mut self, v: i32); fn slot(&mut self) -> &mut i32; fn comb(self, o: Self) -> Self; fn same(&self, o: &Self) -> bool; fn fresh(v: i32) -> Self; }
impl Tr for i32 { const K: i32 = 1; fn get(&self) -> i32 { *self } fn put(&mut self, v: i32) { *self = v; } fn slot(&mut self) -> &mut i32 { self } fn comb(self, o: i32) -> i32 { self + o } fn same(&self, o: &i32) -> bool { *self == *o } fn fresh(v: i32) -> i32 { v + 1 } }
#[derive(Clone, Copy)] pub struct G<T> { pub a: T, pub b: T }
impl<T> G<T> { pub fn new(a: T, b: T) -> G<T> { G { a, b } } pub fn fst(&mut self) -> &mut T { &mut self.a } pub fn into(self) -> T { self.b } pub fn rd(&self) -> &T { &self.a } }
pub fn gset<T>(d: &mut T, v: T) { *d = v; }
pub fn gpick<'a, T>(c: bool, d: &'a mut T, e: &'a mut T) -> &'a mut T { if c { d } else { e } }
pub fn gfst<'a, 'b, T, U>(d: &'a mut T, e: &'b mut U) -> &'a mut T { let _ = e; d }
pub fn gpair<T, U>(a: T, b: U) -> (U, T) { (b, a) }
", "pub fn NAME<T: Tr, const N: usize>(p: T, q: T, r: &mut T, g: &mut G<T>, c: bool) -> T", "let mut x = p; let mut y = q; let mut w = [q; N]; ",
      ["x = q;", "y = x.comb(y);", "*r = x;", "x = *r;", "g.a = y;", "x = g.b;", "gset(r, y);", "*gpick(c, &mut x, &mut y) = p;", "*gfst(r, &mut x) = q;", "if x.same(&y) { x = p; }", "x.put(1);", "*y.slot() = x.get();", "*g.fst() = x;",
       "w[0] = x;", "y = w[N - 1];", "let h = G::new(x, y); x = h.into();", "let mut h = G { a: &mut x, b: &mut y }; **h.fst() = p;", "let mut h = G::new(&mut x, r); h.a = h.b; *h.a = y;", "let t = gpair(x, y); y = t.1;", "std::mem::swap(&mut x, r);",
       "let o = Some(x); if let Some(k) = o { y = k; }", "if T::K > 0 { y = p; }", "let f = |k: T| k.comb(x); y = f(p);", "let mut f = |k: T| { x = k; }; f(y);", "x = T::fresh(y.get());", "y = *g.rd();", "*g = G::new(q, x);", "let k = &mut g.b; *k = x;"],
      ["if c { @ }", "if x.get() > 0 { @ }"],
      ["x", "y", "w[0]"], 2, 3, 1, 1),
    // F19: containers of references
    fam!("containers", "
pub struct L<'a> { pub v: Vec<&'a mut i32>, pub n: i32 }
pub fn mk<'a>(d: &'a mut i32) -> Vec<&'a mut i32> { let mut v = Vec::new(); v.push(d); v }
pub fn add<'a>(v: &mut Vec<&'a mut i32>, d: &'a mut i32) { v.push(d); }
pub fn setall(v: &mut Vec<&mut i32>, k: i32) { for d in v.iter_mut() { **d = k; } }
pub fn last<'x, 'a>(v: &'x mut Vec<&'a mut i32>) -> Option<&'a mut i32> { v.pop() }
pub fn first<'x, 'a>(v: &'x mut [&'a mut i32]) -> &'x mut i32 { &mut *v[0] }
pub fn sum(v: &[&i32]) -> i32 { let mut t = 0; for d in v { t += **d; } t }
pub fn bx<'a>(d: &'a mut i32) -> Box<&'a mut i32> { Box::new(d) }
pub mod m { pub struct Hid<'a> { pub n: i32, r: &'a mut i32 } impl<'a> Hid<'a> { pub fn new(r: &'a mut i32) -> Self { Hid { r, n: 0 } } pub fn set(&mut self, v: i32) { *self.r = v; } pub fn get(&self) -> i32 { *self.r } pub fn slot(&mut self) -> &mut i32 { self.r } pub fn put(&mut self, d: &'a mut i32) { self.r = d; } } }
pub struct Out<'a> { pub h: m::Hid<'a>, pub k: i32 }
pub fn oset(o: &mut Out, v: i32) { o.h.set(v); o.k = v; }
pub fn pair<'a>(c: bool, d: &'a mut i32, e: &'a mut i32) -> (Option<&'a mut i32>, Option<&'a mut i32>) { if c { (Some(d), None) } else { (None, Some(e)) } }
", "pub fn NAME(a: i32, c: bool) -> i32", "let mut x = a; let mut y = 1; let mut z = 2; ",
      ["{ let mut v = mk(&mut x); *v[0] = y; }", "{ let mut v = mk(&mut x); add(&mut v, &mut z); setall(&mut v, y); }", "{ let mut v = mk(&mut x); if let Some(d) = last(&mut v) { *d = z; } }", "{ let mut v = [&mut x, &mut y]; *first(&mut v) = z; }", "{ let v = [&x, &y]; z = sum(&v); }", "{ let mut b = bx(&mut y); **b = x; }", "{ let mut b = Box::new(&mut x); *b = &mut z; **b = y; }",
       "{ let (d, e) = pair(c, &mut x, &mut y); if let Some(d) = d { *d = z; } if let Some(e) = e { *e = 5; } }", "{ let mut l = L { v: mk(&mut x), n: y }; l.v.push(&mut z); *l.v[0] = l.n; }", "{ let mut o = Some((&mut x, &mut y)); if let Some((d, e)) = &mut o { **d = **e; } }", "{ let mut v = Vec::new(); v.push(&mut x); v.push(&mut y); std::mem::swap(v[0], &mut z); }", "{ let mut v = [&mut x, &mut y]; v.swap(0, 1); *v[0] = 7; }", "{ let mut h = m::Hid::new(&mut x); h.set(y); z = h.get(); }", "{ let mut h = m::Hid::new(&mut y); *h.slot() = x; h.n = z; }", "{ let mut h = m::Hid::new(&mut y); h.put(&mut x); h.set(z); }", "{ let mut h = Out { h: m::Hid::new(&mut x), k: 0 }; oset(&mut h, y); z = h.k; }", "{ let mut o = None; if c { o = Some(&mut x); } if let Some(d) = o { *d = y; } }",
       "{ let mut m = [[0, x], [y, 1]]; let d = &mut m[1]; d[0] = z; x = m[1][0]; }", "{ let mut b = Box::new((x, Box::new(y))); *b.1 = z; let t = &mut *b; t.0 = 3; x = *b.1; }", "{ let mut o = Some(Some(x)); if let Some(Some(d)) = &mut o { *d = y; } if let Some(k) = o { z = k.unwrap_or(0); } }", "x = y;", "y = z;", "z = x;"],
      ["if c { @ }", "while z < 4 { z += 1; @ }"],
      ["x", "y + z"], 2, 3, 1, 1),
    // F26: statements of the language's other forms
    fam!("syntax", "#[derive(Clone, Copy)] pub struct P { pub a: i32, pub b: i32, pub c: bool }\n#[derive(Clone, Copy)] pub struct W(pub P, pub i32);\npub static ONE: i32 = 1; pub const TWO: P = P { a: 2, b: 3, c: true };\npub fn fact(n: i32, d: &mut i32) -> i32 { if n <= 0 { 1 } else { *d += n; fact(n - 1, d) } }\npub fn adder(k: i32) -> impl Fn(i32) -> i32 { move |v| v + k }\n", "pub fn NAME(a: i32, c: bool, p: P) -> i32", "let mut x = a; let mut y = 1; let mut q = p; let mut w = W(p, a); ",
      ["q = P { a: x, ..p };", "q = P { b: y, ..q };", "(x, y) = (y, x);", "P { a: x, .. } = q;", "(q.a, q.b) = (q.b, q.a);", "[x, y] = [y, a];", "x = ONE;", "q = TWO;", "w.0 = q;", "w.0.b = x;", "w = W(P { a: y, ..w.0 }, x);", "let W(P { a: ref mut k, .. }, _) = w; *k = x;", "x = 'b: { if c { break 'b y; } if q.c { break 'b q.a; } 3 };", "q.a -= 1;", "x = fact(y, &mut q.a);", "let f = adder(x); y = f(a);", "x = q.a as u8 as i32;", "y = if q.c && x > 0 || c { 1 } else { q.b };", "q.c = x == y;", "let r = &mut q; let P { a: k, .. } = r; *k = y;", "let r = &mut w.0; *r = P { c, ..*r };", "x = (|k: i32| k + q.b)(y);", "y = -x;", "q.c = !q.c;", "x = std::mem::replace(&mut q.b, y);", "std::mem::swap(&mut q, &mut w.0);", "let t = (q, x); y = t.0.a + t.1;", "let W(k, l) = w; q = k; x = l;"],
      ["if q.c { @ }", "while y < 3 { y += 1; @ }", "'o: { if c { break 'o; } @ }"],
      ["x", "q.a + y", "w.0.b"], 2, 3, 1, 1),
    // F27: enums holding references
    fam!("enumrefs", "pub enum E<'a> { A(&'a mut i32), B { p: &'a i32, q: &'a mut i32 }, C(i32), D(Box<i32>) }\npub struct N<'a> { pub e: E<'a>, pub n: i32 }\npub fn mk<'a>(c: bool, d: &'a mut i32, v: i32) -> E<'a> { if c { E::A(d) } else { E::C(v) } }\npub fn set(e: &mut E, v: i32) { match e { E::A(d) => **d = v, E::B { q, .. } => **q = v, E::C(k) => *k = v, E::D(b) => **b = v } }\npub fn get(e: &E) -> i32 { match e { E::A(d) => **d, E::B { p, q } => **p + **q, E::C(k) => *k, E::D(b) => **b } }\npub fn fst<'x, 'a>(e: &'x mut E<'a>) -> Option<&'x mut i32> { match e { E::A(d) => Some(d), E::C(k) => Some(k), _ => None } }\n", "pub fn NAME(a: i32, c: bool) -> i32", "let mut x = a; let mut y = 1; let mut z = 2; ",
      ["{ let mut e = E::A(&mut x); set(&mut e, y); z = get(&e); }", "{ let mut e = mk(c, &mut x, z); if let E::A(d) = e { *d = y; } }", "{ let mut e = mk(c, &mut x, z); if let Some(d) = fst(&mut e) { *d = y; } z = get(&e); }", "{ let e = E::B { p: &x, q: &mut y }; if let E::B { p, q } = e { *q = *p; } }", "{ let mut e = E::C(x); if c { e = E::A(&mut y); } match &mut e { E::A(d) => **d = z, E::C(k) => *k = 4, _ => {} } z = get(&e); }", "{ let mut n = N { e: E::A(&mut x), n: y }; if let E::A(d) = &mut n.e { **d = n.n; } n.n = z; z = get(&n.e); }", "{ let mut n = N { e: E::C(y), n: x }; n.e = mk(c, &mut z, n.n); set(&mut n.e, 8); }", "{ let mut e = E::D(Box::new(x)); if let E::D(b) = &mut e { **b = y; } z = get(&e); }", "{ let mut v = [E::C(y), E::A(&mut x)]; set(&mut v[1], z); y = get(&v[0]); }", "{ let mut o = Some(E::A(&mut x)); if let Some(E::A(d)) = o.as_mut() { **d = y; } if let Some(e) = o.take() { z = get(&e); } }", "{ let e = if c { E::A(&mut x) } else { E::A(&mut y) }; if let E::A(d) = e { *d = z; } }", "{ let mut e = E::A(&mut x); let f = std::mem::replace(&mut e, E::C(y)); if let E::A(d) = f { *d = z; } }", "{ let mut e = E::A(&mut x); if let E::A(d) = &mut e { *d = &mut z; } set(&mut e, y); }", "x = y;", "y = z;", "z = x;"],
      ["if c { @ }", "while z < 4 { z += 1; @ }"],
      ["x", "y + z"], 2, 3, 1, 1),
    // F28: parameters which are references to enums holding references
    fam!("enumargs", "pub enum E<'a> { A(&'a mut i32), B { p: &'a i32, n: i32 }, C(i32) }\npub fn set(e: &mut E, v: i32) { match e { E::A(d) => **d = v, E::C(k) => *k = v, E::B { n, .. } => *n = v } }\npub fn get(e: &E) -> i32 { match e { E::A(d) => **d, E::B { p, n } => **p + *n, E::C(k) => *k } }\npub fn oset(o: &mut Option<&mut i32>, v: i32) { if let Some(d) = o { **d = v; } }\npub fn opick<'x>(o: &'x mut Option<&mut i32>, d: &'x mut i32) -> &'x mut i32 { match o { Some(k) => k, None => d } }\n", "pub fn NAME<'a>(a: i32, e: &mut E<'a>, o: &mut Option<&'a mut i32>) -> i32", "let mut x = a; let mut y = 1; ",
      ["if let E::A(d) = e { **d = x; }", "if let E::C(k) = e { *k = x; }", "if let E::B { p, n } = e { *n = **p; }", "x = get(e);", "set(e, y);", "*e = E::C(x);", "if let Some(d) = o { **d = y; }", "if let Some(d) = o.take() { *e = E::A(d); }", "if let Some(d) = o { y = **d; }", "*opick(o, &mut y) = x;", "oset(o, x);", "*o = None;", "match (&mut *e, &mut *o) { (E::A(d), Some(k)) => std::mem::swap(*d, *k), _ => {} }", "if let E::A(d) = &mut *e { x = **d; }", "match e { E::B { p, .. } => { y = **p; } _ => { y = x; } }", "x = y;"],
      ["if a > 0 { @ }", "if let E::C(0) = e { @ }"],
      ["x", "get(e) + y", "if let Some(d) = o { **d } else { y }"], 2, 3, 1, 1),
    // F20: trait objects
    fam!("objects", "
pub trait Tr { fn get(&self) -> i32; fn put(&mut self, v: i32); fn slot(&mut self) -> &mut i32; fn both(&mut self, o: &mut dyn Tr) { let v = o.get(); self.put(v); } }
pub struct A(pub i32); pub struct B(pub i32, pub i32); pub struct H<'a>(pub &'a mut i32);
impl Tr for A { fn get(&self) -> i32 { self.0 } fn put(&mut self, v: i32) { self.0 = v; } fn slot(&mut self) -> &mut i32 { &mut self.0 } }
impl Tr for B { fn get(&self) -> i32 { self.1 } fn put(&mut self, v: i32) { self.0 = v; self.1 = v; } fn slot(&mut self) -> &mut i32 { &mut self.1 } }
impl<'a> Tr for H<'a> { fn get(&self) -> i32 { *self.0 } fn put(&mut self, v: i32) { *self.0 = v; } fn slot(&mut self) -> &mut i32 { self.0 } }
pub struct Keep<'a> { pub d: &'a mut dyn Tr, pub n: i32 }
pub fn dput(d: &mut dyn Tr, v: i32) { d.put(v); }
pub fn dget(d: &dyn Tr) -> i32 { d.get() }
pub fn dpick<'a>(c: bool, d: &'a mut dyn Tr, e: &'a mut dyn Tr) -> &'a mut dyn Tr { if c { d } else { e } }
pub fn bx<'a>(d: &'a mut i32) -> Box<dyn Tr + 'a> { Box::new(H(d)) }
pub fn setter<'a>(d: &'a mut i32) -> Box<dyn FnMut(i32) + 'a> { Box::new(move |v| *d = v) }
pub fn twice(f: &mut dyn FnMut(i32), v: i32) { f(v); f(v + 1); }
pub fn app(f: &dyn Fn(i32) -> i32, v: i32) -> i32 { f(v) }
pub fn via<T: Tr>(t: &mut T, v: i32) { t.put(v); }
pub fn own<T: Tr>(t: T, v: i32) -> i32 { let mut t = t; t.put(v); t.get() }
pub fn look<T: Tr>(t: &T) -> i32 { t.get() }
pub fn keep(k: &mut Keep<'_>, v: i32) { k.d.put(v); }
", "pub fn NAME(a: i32, c: bool) -> i32", "let mut x = a; let mut y = 1; let mut p = A(a); let mut q = B(1, 2); ",
      ["{ let d: &mut dyn Tr = &mut p; d.put(x); }", "y = dget(&q);", "dput(&mut q, x);", "*dpick(c, &mut p, &mut q).slot() = y;", "{ let mut h = H(&mut x); dput(&mut h, y); }", "{ let mut d: Box<dyn Tr + '_> = Box::new(H(&mut y)); d.put(x); }", "bx(&mut x).put(y);", "setter(&mut y)(x);", "{ let mut f = |v| x = v; twice(&mut f, y); }", "twice(&mut |v| p.0 += v, y);",
       "y = app(&|v| v + x, q.0);", "{ let k = Keep { d: &mut p, n: y }; k.d.put(k.n); }", "via(&mut H(&mut x), y);", "y = own(H(&mut x), y);", "x = look(&H(&mut y));", "{ let mut h = H(&mut x); keep(&mut Keep { d: &mut h, n: 0 }, y); }", "{ let mut k = Keep { d: &mut p, n: 1 }; k.d = &mut q; k.d.put(x); }", "p.both(&mut q);", "q.both(&mut H(&mut x));", "{ let b: Box<dyn Fn(i32) -> i32> = Box::new(move |v| v + x); y = b(1); }", "{ let f: &dyn Fn(i32) -> i32 = if c { &|v| v } else { &|_| 2 }; x = f(y); }", "x = y;", "p.0 = y;", "{ let mut v: [&mut dyn Tr; 2] = [&mut p, &mut q]; v[0].put(x); y = v[1].get(); }"],
      ["if c { @ }", "if dget(&p) > 0 { @ }"],
      ["x", "y", "p.0 + q.1"], 2, 3, 1, 1),
    // F21: async functions
    fam!("awaits", "
pub async fn ag(x: i32) -> i32 { x + 1 }
pub async fn aset(d: &mut i32, v: i32) { *d = v; }
pub async fn ard(s: &i32) -> i32 { *s }
pub async fn apick<'a>(c: bool, d: &'a mut i32, e: &'a mut i32) -> &'a mut i32 { if c { d } else { e } }
pub async fn aopt(c: bool, d: &mut i32) -> Option<&mut i32> { if c { Some(d) } else { None } }
pub async fn chain(d: &mut i32, v: i32) -> i32 { aset(d, v).await; let k = ard(d).await; k + v }
pub async fn once<F: std::future::Future<Output = i32>>(f: F) -> i32 { f.await }
pub fn plain(d: &mut i32, v: i32) -> i32 { *d += v; v }
", "pub async fn NAME(a: i32, b: i32, c: bool, r: &mut i32) -> i32", "let mut x = a; let mut y = 1; let mut z = b; ",
      ["x = ag(y).await;", "aset(&mut x, z).await;", "z = ard(&y).await;", "*apick(c, &mut x, &mut y).await = z;", "{ let f = aset(&mut y, x); x = 3; f.await; }", "{ let f = ard(&x); y = 3; z = f.await; }", "z = async { x + y }.await;",
       "async { x = z; }.await;", "async { let q = &mut x; aset(q, y).await; }.await;", "aset(r, x).await;", "z = ard(r).await;", "*r = y;", "x = y;", "z = chain(&mut y, x).await;", "{ let f = async move { x }; x = 2; z = f.await; }",
       "if let Some(k) = aopt(c, &mut x).await { *k = y; }", "y = once(ag(x)).await;", "{ let g = async { y = x; y }; z = once(g).await; }", "x = plain(&mut y, z);", "{ let f = |k: i32| async move { k + z }; x = f(y).await; }"],
      ["if c { @ }", "if ag(x).await > 1 { @ }", "while z < 2 { z += 1; @ }"],
      ["x", "y", "z + *r"], 2, 3, 1, 1),
    fam!("awaits_refs", "
pub struct G<'a> { pub p: &'a mut i32, pub n: i32 }
pub struct GG<'a> { pub g: G<'a>, pub m: i32 }
pub async fn aset(d: &mut i32, v: i32) { *d = v; }
pub async fn apick<'a>(c: bool, d: &'a mut i32, e: &'a mut i32) -> &'a mut i32 { if c { d } else { e } }
pub fn pick<'a>(c: bool, d: &'a mut i32, e: &'a mut i32) -> &'a mut i32 { if c { d } else { e } }
pub fn gp<'x, 'a>(g: &'x mut G<'a>) -> &'x mut &'a mut i32 { &mut g.p }
pub async fn agp<'x, 'a>(g: &'x mut G<'a>) -> &'x mut i32 { &mut *g.p }
pub fn gt<'x, 'a>(g: &'x mut GG<'a>) -> &'x mut G<'a> { &mut g.g }
", "pub async fn NAME<'a>(c: bool, g: &mut G<'_>, o: Option<&mut i32>, r: &'a mut i32, t: &'a mut i32, h: GG<'_>) -> i32", "let mut o = o; let mut t = t; let mut h = h; let mut x = 1; ",
      ["**gp(g) = x;", "*agp(g).await = x;", "x = *g.p;", "*g.p = *r;", "if let Some(k) = o.as_mut() { **k = x; }", "if let Some(k) = &o { x = **k; }", "if let Some(k) = o.take() { *k = x; }", "aset(r, x).await;", "x = *t;", "*t = x;", "t = &mut *r;", "*pick(c, t, &mut x) = 2;", "*apick(c, t, &mut x).await = 2;",
       "{ let k = &mut t; **k = x; }", "x = *h.g.p;", "{ let k = gt(&mut h); *k.p = x; }", "**gp(&mut h.g) = x;", "g.n = x;", "x = g.n;", "{ let k = async { *r = x; }; k.await; }", "{ let mut f = || { *g.p = x; }; f(); }"],
      ["if c { @ }"],
      ["x", "*g.p", "*t + *h.g.p"], 2, 3, 1, 1),
    // F22: the bodies of closures
    fam!("bodies", BODIES_PRELUDE, "pub fn NAME(c: bool, r: &mut i32, g: &mut G<'_>, o: Option<&mut i32>, a: i32)", "let mut o = o; let mut x = a; let mut p = (1, 2); let mut w = [a, 2]; let mut q = &mut *r; let mut body = |v: i32, u: &mut i32| -> i32 { let mut z = v; ",
      ["x = z;", "z = x;", "p.0 = z;", "z = p.1;", "p = (z, p.0);", "w[0] = z;", "z = w[1];", "*g.p = z;", "z = *g.p;", "**gp(g) = x;", "g.n = z;", "*q = z;", "z = *q;", "{ let k = &mut x; *k = z; }", "set(&mut x, z);", "*pick(c, &mut x, &mut p.0) = z;", "*pick(c, q, u) = z;", "*u = x;", "z = *u;", "{ let mut f = || { x = z; }; f(); }", "std::mem::swap(&mut x, u);", "*fst(&mut p) = z;"],
      ["if c { @ }", "if x > 1 { @ }", "if *u > 0 { @ }"],
      ["z }; body(1, &mut 2);", "x }; body(1, &mut 2);", "p.0 + *q }; body(1, &mut 2);"], 2, 3, 1, 1),
    fam!("bodies_move", BODIES_PRELUDE, "pub fn NAME(c: bool, r: &mut i32, g: G<'_>, o: Option<&mut i32>, s: &i32, a: i32)", "let mut o = o; let mut g = g; let mut x = a; let mut p = (1, 2); let mut q = &mut *r; let body = move |v: i32| -> i32 { let mut z = v; ",
      ["x = z;", "z = x;", "p.0 = z;", "z = p.1;", "*g.p = z;", "z = *g.p;", "**gp(&mut g) = x;", "g.n = z;", "*q = z;", "z = *q;", "q = &mut x;", "set(&mut x, z);", "*pick(c, &mut x, &mut p.0) = z;", "*pick(c, q, &mut z) = 3;", "if let Some(k) = &mut o { **k = z; }", "if let Some(k) = &o { z = **k; }", "z = *s;", "{ let k = g; *k.p = z; }", "if let Some(k) = o { *k = x; }", "z = *ro(s, &x);", "{ let mut f = || { x = z; }; f(); }"],
      ["if c { @ }", "if x > 1 { @ }", "if *q > 0 { @ }"],
      ["z }; let mut body = body; body(1);", "x }; let mut body = body; body(1);", "p.0 }; let mut body = body; body(1);"], 2, 3, 1, 1),
    // C09: two worlds that share nothing mutable; each line belongs to one
    fam!("worlds_own", CALL_PRELUDE, "pub fn NAME(a_n: i32, a_c: bool, b_n: i32, b_c: bool)",
      "\n/*A*/ let mut a_x = a_n;\n/*A*/ let mut a_y = 1;\n/*A*/ let mut a_p = mk(1, 2);\n/*B*/ let mut b_x = b_n;\n/*B*/ let mut b_y = 1;\n/*B*/ let mut b_v = [b_n, 0];\n",
      ["/*A*/ a_x = a_y;\n", "/*A*/ set(&mut a_y, a_x);\n", "/*A*/ if a_c { a_y = a_n; }\n", "/*A*/ { let a_r = pick(a_c, &mut a_x, &mut a_y); *a_r = 3; }\n", "/*A*/ { let mut a_r = &mut a_x; store(&mut a_r, &mut a_y); *a_r += 1; }\n",
       "/*A*/ while a_x < 2 { a_x += 1; }\n", "/*A*/ { let mut a_f = || { a_y = a_x; }; a_f(); }\n", "/*A*/ *fld(&mut a_p) = a_y;\n", "/*A*/ a_x = a_p.v / a_y;\n", "/*A*/ if let Some(a_r) = opt(a_c, &mut a_x) { *a_r = a_y; }\n",
       "/*B*/ b_x = b_y;\n", "/*B*/ b_y = bump(&mut b_x);\n", "/*B*/ if b_c { b_x = b_n; } else { b_v[0] = b_y; }\n", "/*B*/ { let mut b_w = wrap(&mut b_x); put(&mut b_w, &mut b_y); wset(&mut b_w, b_n); }\n", "/*B*/ for b_k in &mut b_v { *b_k += b_x; }\n",
       "/*B*/ sw(&mut b_x, &mut b_v[1]);\n", "/*B*/ let b_z = Box::new(b_v); b_x = b_z[0];\n"],
      [], [""], 2, 3, 1, 0),
    fam!("worlds_fields", "#[derive(Clone, Copy)] pub struct S { pub a: (i32, i32), pub b: (i32, i32) } pub fn set(d: &mut i32, v: i32) { *d = v; } pub fn sw(a: &mut i32, b: &mut i32) { let t = *a; *a = *b; *b = t; } pub fn snd(t: &mut (i32, i32)) -> &mut i32 { &mut t.1 }\n", "pub fn NAME(a_n: i32, b_n: i32)",
      "\nlet mut s = S { a: (0, 0), b: (0, 0) };\n/*A*/ s.a = (a_n, 1);\n/*B*/ s.b = (b_n, 2);\n",
      ["/*A*/ s.a.0 = a_n;\n", "/*A*/ { let a_r = &mut s.a; a_r.1 = a_r.0; }\n", "/*A*/ set(&mut s.a.1, a_n);\n", "/*A*/ if s.a.0 > 0 { s.a.1 = 2; }\n", "/*A*/ s.a = (s.a.1, a_n);\n", "/*A*/ { let (a_q, a_r) = (&mut s.a.0, &mut s.a.1); sw(a_q, a_r); }\n", "/*A*/ *snd(&mut s.a) = 4;\n", "/*A*/ { let mut a_f = || s.a.0 += 1; a_f(); }\n",
       "/*B*/ s.b.0 = b_n;\n", "/*B*/ { let b_r = &mut s.b.1; *b_r += b_n; }\n", "/*B*/ sw(&mut s.b.0, &mut s.b.1);\n", "/*B*/ while s.b.0 < 1 { s.b.0 += 1; }\n", "/*B*/ *snd(&mut s.b) = b_n;\n", "/*B*/ s.b.1 = s.b.0;\n"],
      [], ["/*A*/ let a_out = s.a;\n/*B*/ let b_out = s.b;\n"], 3, 4, 1, 0),
    fam!("worlds_async", "
pub async fn ag(x: i32) -> i32 { x + 1 }
pub async fn aset(d: &mut i32, v: i32) { *d = v; }
pub async fn asw(a: &mut i32, b: &mut i32) { let t = *a; *a = *b; *b = t; }
pub async fn apick<'a>(c: bool, d: &'a mut i32, e: &'a mut i32) -> &'a mut i32 { if c { d } else { e } }
pub struct AH<'a> { pub p: &'a mut i32, pub n: i32 }
impl<'a> AH<'a> { pub async fn put(&mut self, v: i32) { *self.p = v; } pub async fn get(&self) -> i32 { *self.p + self.n } }
", "pub async fn NAME(a_n: i32, b_n: i32)",
      "\n/*A*/ let mut a_x = a_n;\n/*A*/ let mut a_y = 1;\n/*B*/ let mut b_x = b_n;\n/*B*/ let mut b_y = 3;\n",
      ["/*A*/ a_x = ag(a_y).await;\n", "/*A*/ aset(&mut a_x, a_y).await;\n", "/*A*/ asw(&mut a_x, &mut a_y).await;\n", "/*A*/ { let a_f = aset(&mut a_y, a_n); a_x = 4; a_f.await; }\n", "/*A*/ *apick(a_n > 0, &mut a_x, &mut a_y).await = 3;\n", "/*A*/ if a_x > 0 { a_y = ag(a_n).await; }\n", "/*A*/ { let mut a_h = AH { p: &mut a_x, n: a_n }; a_h.put(a_y).await; }\n", "/*A*/ a_y = async { a_x + 1 }.await;\n",
       "/*B*/ b_x = ag(b_y).await;\n", "/*B*/ aset(&mut b_y, b_x).await;\n", "/*B*/ { let b_h = AH { p: &mut b_y, n: b_x }; b_x = b_h.get().await; }\n", "/*B*/ async { b_x = b_y; }.await;\n", "/*B*/ b_x = b_n;\n", "/*B*/ while b_x < 2 { b_x = ag(b_x).await; }\n"],
      [], [""], 3, 4, 1, 0),
    fam!("worlds_shared", CALL_PRELUDE, "pub fn NAME(sh: &P, a_n: i32, b_n: i32)",
      "\n/*A*/ let mut a_x = a_n;\n/*A*/ let mut a_r = &sh.u;\n/*B*/ let mut b_x = b_n;\n/*B*/ let mut b_y = 3;\n/*B*/ let mut b_r = &sh.v;\n",
      ["/*A*/ a_x = sh.u;\n", "/*A*/ a_x = rd(&sh.v);\n", "/*A*/ mv(&mut a_x, &sh.u);\n", "/*A*/ a_r = &sh.v;\n", "/*A*/ a_x = *ro(a_r, &sh.v);\n", "/*A*/ if sh.u > 0 { a_x = a_n; }\n", "/*A*/ let a_p = *sh; a_x = a_p.v;\n",
       "/*B*/ b_x = sh.u + b_y;\n", "/*B*/ mv(&mut b_y, b_r);\n", "/*B*/ b_r = ro(&sh.u, b_r);\n", "/*B*/ set(&mut b_x, *b_r);\n", "/*B*/ while b_x < sh.v { b_x += 1; }\n", "/*B*/ let b_f = || sh.u + b_n; b_y = b_f();\n", "/*B*/ let b_o = Some(&sh.u); if let Some(b_q) = b_o { b_x = *b_q; }\n"],
      [], [""], 3, 4, 1, 0),
    fam!("worlds_holder", "pub struct R2<'a, 'b> { pub p: &'a mut i32, pub q: &'b mut i32 } pub fn set(d: &mut i32, v: i32) { *d = v; } pub fn pp<'x, 'a, 'b>(k: &'x mut R2<'a, 'b>) -> &'x mut &'a mut i32 { &mut k.p } pub fn into_p<'a, 'b>(k: R2<'a, 'b>) -> &'a mut i32 { k.p } pub fn into_q<'a, 'b>(k: R2<'a, 'b>) -> &'b mut i32 { k.q }\n", "pub fn NAME(a_n: i32, b_n: i32)",
      "\n/*A*/ let mut a_x = a_n;\n/*A*/ let mut a_y = 1;\n/*B*/ let mut b_x = b_n;\n/*B*/ let mut b_y = 2;\n{ let k = R2 { p: &mut a_x, q: &mut b_x };\n",
      ["/*A*/ *k.p = a_n;\n", "/*A*/ *k.p += a_y;\n", "/*A*/ set(k.p, a_y);\n", "/*A*/ a_y = *k.p;\n", "/*A*/ if *k.p > 0 { a_y = 4; }\n", "/*A*/ let a_r = &mut *k.p; *a_r = 2;\n",
       "/*B*/ *k.q = b_n;\n", "/*B*/ set(k.q, b_y);\n", "/*B*/ b_y = *k.q;\n", "/*B*/ let b_r = &mut *k.q; set(b_r, b_n);\n", "/*B*/ if b_n > 0 { *k.q = 4; }\n"],
      [], ["}\n"], 3, 4, 1, 0),
    fam!("worlds_params", CALL_PRELUDE, "pub fn NAME<'a, 'b>(a_p: &'a mut i32, a_t: &'a mut (i32, i32), b_p: &'b mut i32, b_w: &'b mut P, a_n: i32, b_n: i32)", "\n",
      ["/*A*/ *a_p = a_n;\n", "/*A*/ a_t.0 = *a_p;\n", "/*A*/ sw(a_p, &mut a_t.1);\n", "/*A*/ if a_t.0 > 0 { *a_p = 1; }\n", "/*A*/ *pick(a_n > 0, &mut *a_p, &mut a_t.0) = 5;\n", "/*A*/ { let a_r = id(&mut *a_p); *a_r += a_t.1; }\n", "/*A*/ std::mem::swap(&mut a_t.0, a_p);\n",
       "/*B*/ *b_p = b_w.u;\n", "/*B*/ *fld(b_w) = b_n;\n", "/*B*/ *b_w = mk(*b_p, b_n);\n", "/*B*/ cond_set(b_p, b_w.v, b_n > 1);\n", "/*B*/ { let b_k = R2 { p: &mut *b_p, q: &mut b_w.v }; *b_k.p = *b_k.q; }\n", "/*B*/ while *b_p < 2 { *b_p += 1; }\n"],
      [], [""], 3, 4, 1, 0),
    // C13: one of everything
    whole!("zoo", include_str!("zoo.rs.txt"), ["pub fn NAME() {}"]),
    // hand-picked programs: one per known finding
    whole!("probes", "
pub struct S1<'a> { pub a: S2<'a> } pub struct S2<'a> { pub b: S3<'a> } pub struct S3<'a> { pub c: &'a mut i32 }
mod m { #[derive(Clone, Copy)] pub struct Hid(u8, pub i32, pub i32); impl Hid { pub fn get(&self) -> u8 { self.0 } } }
", [
      "pub fn NAME(s: S1<'_>, a: i32) { *s.a.b.c = a; }",
      "pub fn NAME(mut s: m::Hid, a: i32) { s.2 = a; }",
    ]),
  ]
}

pub const IFC_PRELUDE: &str = "use flowistry_ifc_traits::{Secure, Insecure};
pub struct Pw(pub i32, pub i32); impl Secure for Pw {}
pub struct Out(pub i32, pub i32); impl Insecure for Out {}
pub struct Holder { pub s: Pw, pub n: i32 }
pub struct Log<'a> { pub o: &'a mut Out, pub n: i32 }
pub fn get(p: &Pw) -> i32 { p.0 }
pub fn mk(a: i32) -> Pw { Pw(a, 1) }
pub fn hide(p: &mut Pw) { p.0 = 0; }
pub fn put(o: &mut Out, v: i32) { o.0 = v; }
pub fn is(p: &Pw, g: i32) -> bool { p.1 == g }
pub fn send(o: Out) -> i32 { o.0 + o.1 }
pub fn copy(o: &mut i32, p: &Pw) { *o = p.1; }
pub fn slot(o: &mut Out) -> &mut i32 { &mut o.1 }
pub fn opt(p: &Pw) -> Option<i32> { if p.0 > 0 { Some(p.1) } else { None } }
";

/// Programs with secure and insecure data in them.
pub fn ifc_families() -> Vec<Family> {
  vec![
    fam!("flow_locals", IFC_PRELUDE, "pub fn NAME(a: i32, b: i32) -> i32", "let mut pw = mk(a); let mut o = Out(0, 1); let mut x = 0;",
      ["o.0 = pw.0;", "o = Out(x, pw.1);", "o = Out(b, 0);", "put(&mut o, get(&pw));", "x = get(&pw);", "o.1 = x;", "x = b;", "pw = mk(b);", "pw.0 = b;", "hide(&mut pw);",
       "x = send(o); o = Out(2, 2);", "copy(&mut o.1, &pw);", "let r = &mut o; r.0 = x;", "*slot(&mut o) = x;", "let h = Holder { s: Pw(x, 1), n: b }; o.0 = h.n;", "let h = Holder { s: mk(b), n: 3 }; o.1 = h.s.1;"],
      ["if is(&pw, b) { @ } else { @ }", "if x > 0 { @ }"],
      ["x"], 3, 4, 2, 1),
    fam!("flow_args", IFC_PRELUDE, "pub fn NAME(p: &Pw, q: Pw, h: Holder, a: i32) -> i32", "let mut o = Out(0, 0); let mut q = q; let mut h = h; ",
      ["o.0 = p.0;", "o.1 = q.1;", "o = Out(h.n, a);", "o.0 = h.s.0;", "q.1 = a;", "q = mk(p.1);", "h.s = Pw(a, 2);", "h.n = a;", "if let Some(w) = opt(p) { o.0 = w; }", "let f = |v: i32| v + q.0; o.0 = f(a);", "let w = o; o = Out(a, a); let _z = send(w);"],
      ["if p.0 == a { @ }", "while o.0 < a { @ o.0 += 1; }"],
      ["o.0 + o.1", "a"], 3, 4, 2, 1),
    fam!("flow_async", concat!("use flowistry_ifc_traits::{Secure, Insecure};
pub struct Pw(pub i32, pub i32); impl Secure for Pw {}
pub struct Out(pub i32, pub i32); impl Insecure for Out {}
pub async fn get(p: &Pw) -> i32 { p.0 }
pub async fn mk(a: i32) -> Pw { Pw(a, 1) }
pub async fn hide(p: &mut Pw) { p.0 = 0; }
pub async fn put(o: &mut Out, v: i32) { o.0 = v; }
pub async fn send(o: Out) -> i32 { o.0 + o.1 }
pub fn copy(o: &mut i32, p: &Pw) { *o = p.1; }
"), "pub async fn NAME(q: Pw, p: &mut Pw, s: &mut Out, a: i32) -> i32", "let mut o = Out(0, 0); let mut q = q; let mut x = a; ",
      ["o.0 = q.0;", "s.1 = p.1;", "x = get(&q).await;", "x = get(p).await;", "put(&mut o, x).await;", "put(s, x).await;", "q = mk(x).await;", "hide(&mut q).await;", "hide(p).await;", "x = send(o).await; o = Out(3, 3);", "copy(&mut s.0, &q);", "q.1 = a;", "p.0 = x;", "x = a;",
       "o.1 = async { q.1 }.await;", "{ let f = get(&q); o.0 = f.await; }", "{ let f = async { o.0 = x; }; f.await; }"],
      ["if q.0 > 0 { @ }", "if get(p).await == a { @ }"],
      ["x", "o.0"], 2, 3, 2, 1),
    fam!("flow_refs", IFC_PRELUDE, "pub fn NAME(p: &mut Pw, q: &Pw, o: &mut Out, l: Log<'_>, a: i32)", "let mut x = a; ",
      ["o.0 = p.0;", "o.1 = q.1;", "x = p.1;", "x = a;", "o.0 = x;", "l.o.0 = p.1;", "put(l.o, x);", "p.1 = a;", "*p = mk(x);", "hide(p);", "*o = Out(x, 0);", "copy(&mut o.1, q);", "p.0 = q.1;"],
      ["if is(p, a) { @ }", "while x > 0 { @ x -= 1; }"],
      [""], 3, 4, 2, 1),
  ]
}

/// Functions which need not be executable: only whether the checker finishes, and what it says.
pub fn ifc_zoo() -> Family {
  whole!("flow_zoo", concat!("use flowistry_ifc_traits::{Secure, Insecure, InsecureString, insecure_print};
pub struct Pw(pub String, pub i32); impl Secure for Pw {}
pub struct Out(pub i32, pub i32); impl Insecure for Out {}
pub struct G<T>(pub T); impl<T> Insecure for G<T> {}
pub trait Src { fn go(&self) -> i32; fn dflt(&self) -> i32 { 3 } }
pub enum En { A(Pw), B(Out) }
pub fn die() -> ! { panic!() }
pub fn mk() -> Pw { Pw(String::new(), 1) }
"), [
    // nothing leaks
    "pub fn NAME() {}",
    "pub fn NAME() -> ! { loop {} }",
    "pub fn NAME(c: bool) -> i32 { if c { let p = mk(); if p.1 > 3 { die(); } die() } let o = Out(1, 2); o.0 }",
    "pub fn NAME(c: bool) -> i32 { if c { let p = mk(); std::process::exit(p.1) } let o = Out(1, 2); o.0 }",
    "pub fn NAME() -> Pw { panic!() }",
    "pub fn NAME(o: Out) -> i32 { let p: Pw; if o.0 > 0 { p = mk(); return p.1; } o.1 }",
    "pub fn NAME() { let p = mk(); let o = Out(1, 2); drop(p); drop(o); }",
    "pub fn NAME() { let s = String::from(\"x\"); insecure_print!(\"{}\", s); }",
    "pub fn NAME() { let _p = mk(); insecure_print!(\"hi\"); }",
    "pub async fn NAME(p: Pw) -> i32 { let x = p.1; std::future::ready(()).await; x }",
    "pub fn NAME() -> impl Fn(i32) -> i32 { |x| x + 1 }",
    "pub fn NAME<const N: usize>() -> usize { let a = [0u8; N]; a.len() }",
    "pub fn NAME() -> usize { const K: usize = 3; static S: [u8; K] = [1; K]; S.len() }",
    "pub fn NAME<T: Src + ?Sized>(t: &T, g: G<i32>) -> i32 { t.go() + t.dflt() + g.0 }",
    "pub unsafe fn NAME(p: *const Pw) -> i32 { (*p).1 }",
    "pub fn NAME() { loop { let p = mk(); if p.1 == 3 { break } } }",
    "pub fn NAME(n: i32) -> i32 { if n == 0 { 0 } else { NAME(n - 1) } }",
    "pub mod mNAME { pub struct T; impl super::Src for T { fn go(&self) -> i32 { const { 1 + 1 } } } }",
    "pub fn NAME(p: &Pw) -> i32 { let o = Out(1, 2); let q = p.1; q + o.0 }",
    "pub extern \"C\" fn NAME(x: i32) -> i32 { match x { 0 => 1, _ => unreachable!() } }",
    // something leaks
    "pub fn NAME() { /*leak*/ let p = mk(); let v = &p.0; insecure_print!(\"{}\", v); }",
    "pub fn NAME(p: &Pw) { /*leak*/ let v = &p.1; insecure_print!(\"{}\", v); }",
    "pub fn NAME(p: Pw) -> InsecureString { /*leak*/ InsecureString(p.0) }",
    "pub fn NAME(p: &Pw, g: &str) { /*leak*/ if p.0 == g { insecure_print!(\"yes\"); } }",
    "pub fn NAME(mut p: Pw, n: String) -> Pw { /*leak*/ let v = &p.0; insecure_print!(\"{}\", v); p.0 = n; p }",
    "pub fn NAME(n: String) { /*leak*/ let p = Pw(n, 3); let o = Out(p.1, 0); let q = o.0; drop(p); drop(q); }",
    "pub fn NAME(p: &Pw) -> impl Fn() -> Out + '_ { /*leak*/ move || Out(p.1, 0) }",
    "pub async fn NAME(p: Pw) -> i32 { /*leak*/ let o = Out(p.1, 0); std::future::ready(()).await; o.0 }",
    "pub fn NAME(p: &Pw, v: &mut Vec<Out>) { /*leak*/ v.push(Out(p.1, 1)); }",
    "pub fn NAME(p: &mut Pw) -> G<i32> { /*leak*/ G(p.1) }",
    "pub fn NAME(c: bool) -> i32 { /*leak*/ let p = mk(); let o = Out(p.1, 1); if c { panic!() } o.0 }",
    "pub fn NAME() { /*leak*/ let f = |k: Pw, mut o: Out| { o.0 = k.1; o }; f(mk(), Out(0, 0)); }",
    "pub fn NAME() { /*leak*/ fn inner(k: &Pw) -> Out { Out(k.1, 0) } }",
    "pub fn NAME(_x: i32) { /*leak*/ fn inner(k: &Pw) -> Out { Out(k.1, 0) } }",
    "pub fn NAME() { /*leak*/ let f = || { let g = |k: Pw| Out(k.1, 0); g }; f(); }",
    "pub mod mNAME { /*leak*/ pub struct T; impl T { pub fn go(&self, k: &super::Pw) -> super::Out { super::Out(k.1, 0) } } }",
    "pub mod mNAME { /*leak*/ pub trait D { fn go(&self, k: &super::Pw) -> super::Out { super::Out(k.1, 0) } } }",
    "pub mod mNAME { /*leak*/ mod deep { pub(super) fn go(k: &crate::Pw) -> crate::Out { crate::Out(k.1, 0) } } pub fn x(k: &crate::Pw) { deep::go(k); } }",
    "const _: fn() -> &'static str = || \"NAME\"; impl Src for Box<dyn Fn()> { /*leak*/ fn go(&self) -> i32 { let p = mk(); let o = Out(p.1, 0); o.0 } }",
    "pub const fNAME: fn(&Pw) -> Out = { fn inner(k: &Pw) -> Out { /*leak*/ Out(k.1, 0) } inner };",
    "pub fn NAME() -> ! { /*leak*/ let p = mk(); let v = &p.0; insecure_print!(\"{}\", v); die() }",
    "pub fn NAME() { /*leak*/ loop { let p = mk(); let v = &p.0; insecure_print!(\"{}\", v); } }",
  ])
}

