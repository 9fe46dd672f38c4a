//! Explicit-state concrete interpreter for the MIR bodies that flowistry analyses.
//!
//! The interpreter executes the *same* `Body` (borrowck-phase MIR after rustc_utils'
//! simplification) that the analysis consumes.  A run may carry one `Perturb`ation of the
//! top-level frame: a different value written by one location, a different branch taken at one
//! switch, a different pointee for one reference, or a different effect of one call.

use rustc_borrowck::consumers::BodyWithBorrowckFacts;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt, TyKind};
use rustc_utils::mir::borrowck_facts::get_body_with_borrowck_facts;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Val {
  Uninit,
  Int(i128),
  Bool(bool),
  Agg(Vec<Val>),
  Enum(u32, Vec<Val>),
  Ptr(Ptr),
  Fn(DefId),
  /// something we do not look into (strings, ...)
  Opaque,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Ptr {
  pub alloc: usize,
  pub path: Vec<u32>,
  pub owned: bool,
  pub raw: bool,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Stop {
  Unsupported(String),
  Panic,
  Fuel,
  /// undefined behaviour reached because of a perturbation (wrong variant, uninit read)
  Stuck(String),
  Unwind,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum PKind {
  /// change leaf `leaf` of the value written at the location (alternative number `alt`)
  Write { leaf: usize, alt: usize },
  /// retarget pointer leaf `leaf` of the value written
  Retarget { leaf: usize },
  /// take successor `target` of the SwitchInt
  Switch { target: usize },
  /// change the `nth` distinct caller cell written by the call, leaf `leaf`
  CallCell { nth: usize, leaf: usize, alt: usize },
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Perturb {
  pub loc: Location,
  /// None = at every visit
  pub visit: Option<usize>,
  pub kind: PKind,
}

/// What happened at one visit of one top-level location.
#[derive(Clone, Debug)]
pub struct Step {
  pub loc: Location,
  pub visit: usize,
  pub scalar_leaves: usize,
  pub ptr_leaves: usize,
  pub switch_targets: usize,
  pub taken: usize,
  /// number of leaves of each caller cell the call wrote
  pub call_cells: Vec<usize>,
}

pub struct Frame<'tcx> {
  pub body: &'tcx Body<'tcx>,
  pub facts: &'tcx BodyWithBorrowckFacts<'tcx>,
  pub args: GenericArgsRef<'tcx>,
  pub locals: Vec<usize>,
}

pub type Cell = (usize, Vec<u32>);

pub struct Interp<'tcx> {
  pub tcx: TyCtxt<'tcx>,
  pub mem: Vec<Val>,
  pub fuel: usize,
  pub depth: usize,
  pub perturb: Option<Perturb>,
  pub perturb_hit: bool,
  pub record_steps: bool,
  pub steps: Vec<Step>,
  pub visits: std::collections::HashMap<Location, usize>,
  /// cells written since the current top-level step began
  pub writes: Vec<Cell>,
  pub track_writes: bool,
  pub reads: Vec<Cell>,
  pub track_reads: bool,
  pub nsteps: u64,
  /// the types of what became trait objects
  pub objects: std::collections::HashMap<Cell, Ty<'tcx>>,
  /// caller-visible cells written by the callee of the last top-level call
  pub last_call_cells: Vec<Cell>,
  /// allocations with a smaller number are the inputs of the run
  pub entry_len: usize,
}

pub trait Observer<'tcx> {
  /// Called before a top-level statement/terminator executes.
  fn before(&mut self, _i: &mut Interp<'tcx>, _f: &Frame<'tcx>, _loc: Location) {}
  /// Called after a top-level statement/terminator executed.
  fn after(&mut self, _i: &mut Interp<'tcx>, _f: &Frame<'tcx>, _loc: Location) {}
}
pub struct NoObs;
impl<'tcx> Observer<'tcx> for NoObs {}

type R<T> = Result<T, Stop>;

fn unsup<T>(s: impl Into<String>) -> R<T> {
  Err(Stop::Unsupported(s.into()))
}

pub fn leaves(v: &Val, scalars: &mut usize, ptrs: &mut usize) {
  match v {
    Val::Int(_) | Val::Bool(_) => *scalars += 1,
    Val::Agg(f) | Val::Enum(_, f) => f.iter().for_each(|x| leaves(x, scalars, ptrs)),
    Val::Ptr(_) => *ptrs += 1,
    _ => {}
  }
}

pub const ALTS: usize = 2;
pub fn alt_int(v: i128, alt: usize) -> i128 {
  match alt {
    0 => if v == 0 { 1 } else { 0 },
    _ => if v == 2 { 3 } else { 2 },
  }
}

fn perturb_scalar(v: &mut Val, n: &mut usize, leaf: usize, alt: usize) -> bool {
  match v {
    Val::Int(i) => {
      let hit = *n == leaf;
      if hit { *i = alt_int(*i, alt) }
      *n += 1;
      hit
    }
    Val::Bool(b) => {
      let hit = *n == leaf;
      if hit { *b = !*b }
      *n += 1;
      hit
    }
    Val::Agg(f) | Val::Enum(_, f) => f.iter_mut().any(|x| perturb_scalar(x, n, leaf, alt)),
    _ => false,
  }
}

fn nth_ptr<'a>(v: &'a mut Val, n: &mut usize, leaf: usize) -> Option<&'a mut Ptr> {
  match v {
    Val::Ptr(p) => {
      let hit = *n == leaf;
      *n += 1;
      if hit { Some(p) } else { None }
    }
    Val::Agg(f) | Val::Enum(_, f) => f.iter_mut().find_map(|x| nth_ptr(x, n, leaf)),
    _ => None,
  }
}

impl<'tcx> Interp<'tcx> {
  pub fn new(tcx: TyCtxt<'tcx>, fuel: usize) -> Self {
    Interp {
      tcx, mem: Vec::new(), fuel, depth: 0, perturb: None, perturb_hit: false,
      record_steps: false, steps: vec![], visits: Default::default(),
      writes: vec![], track_writes: false, reads: vec![], track_reads: false, nsteps: 0, objects: Default::default(), last_call_cells: vec![], entry_len: 0,
    }
  }

  pub fn alloc(&mut self, v: Val) -> usize {
    self.mem.push(v);
    self.mem.len() - 1
  }

  fn at<'a>(v: &'a mut Val, path: &[u32], create: bool) -> R<&'a mut Val> {
    let mut cur = v;
    for &p in path {
      if create && *cur == Val::Uninit {
        *cur = Val::Agg(vec![]);
      }
      match cur {
        Val::Agg(f) | Val::Enum(_, f) => {
          let p = p as usize;
          if create && p >= f.len() && f.len() < 64 {
            f.resize(p + 1, Val::Uninit);
          }
          if p >= f.len() { return Err(Stop::Stuck("index".into())); }
          cur = &mut f[p];
        }
        _ => return Err(Stop::Stuck("path".into())),
      }
    }
    Ok(cur)
  }

  pub fn read_cell(&mut self, c: &Cell) -> R<&mut Val> {
    if self.track_reads { self.reads.push(c.clone()); }
    Self::at(&mut self.mem[c.0], &c.1, false)
  }
  pub fn peek(&mut self, c: &Cell) -> R<&mut Val> {
    Self::at(&mut self.mem[c.0], &c.1, false)
  }
  pub fn write_cell(&mut self, c: &Cell, v: Val) -> R<()> {
    *Self::at(&mut self.mem[c.0], &c.1, true)? = v;
    if self.track_writes || self.depth > 0 { self.writes.push(c.clone()); }
    Ok(())
  }

  /// Resolve a place to a memory cell.
  pub fn place(&mut self, f: &Frame<'tcx>, place: Place<'tcx>) -> R<Cell> {
    self.place_ref(f, place.local, place.projection)
  }

  pub fn place_ref(&mut self, f: &Frame<'tcx>, local: Local, proj: &[PlaceElem<'tcx>]) -> R<Cell> {
    let mut c: Cell = (f.locals[local.as_usize()], vec![]);
    for elem in proj {
      match elem {
        ProjectionElem::Deref => {
          let v = self.peek(&c)?;
          match v {
            Val::Ptr(p) => c = (p.alloc, p.path.clone()),
            Val::Uninit => return Err(Stop::Stuck("deref uninit".into())),
            o => return unsup(format!("deref of {o:?}")),
          }
        }
        ProjectionElem::Field(i, _) => c.1.push(i.as_u32()),
        ProjectionElem::Index(l) => {
          let i = match self.peek(&(f.locals[l.as_usize()], vec![]))? {
            Val::Int(i) => *i as u32,
            _ => return Err(Stop::Stuck("index".into())),
          };
          c.1.push(i);
        }
        ProjectionElem::ConstantIndex { offset, from_end, .. } => {
          let len = self.len_of(&c)?;
          let i = if *from_end { len - offset } else { *offset };
          c.1.push(i as u32);
        }
        ProjectionElem::Downcast(_, idx) => {
          match self.peek(&c)? {
            Val::Enum(v, _) if *v == idx.as_u32() => {}
            _ => return Err(Stop::Stuck("downcast".into())),
          }
        }
        ProjectionElem::OpaqueCast(_) | ProjectionElem::Subtype(_) | ProjectionElem::UnwrapUnsafeBinder(_) => {}
        ProjectionElem::Subslice { .. } => return unsup("subslice"),
      }
    }
    Ok(c)
  }

  fn len_of(&mut self, c: &Cell) -> R<u64> {
    match self.peek(c)? {
      Val::Agg(f) => Ok(f.len() as u64),
      _ => Err(Stop::Stuck("len".into())),
    }
  }

  fn inst(&self, f: &Frame<'tcx>, ty: Ty<'tcx>) -> Ty<'tcx> {
    let ty = self.tcx.erase_regions(ty);
    let ty = ty::EarlyBinder::bind(ty).instantiate(self.tcx, f.args);
    self.tcx.try_normalize_erasing_regions(ty::TypingEnv::fully_monomorphized(), ty).unwrap_or(ty)
  }

  fn constant(&mut self, f: &Frame<'tcx>, c: &ConstOperand<'tcx>) -> R<Val> {
    let tcx = self.tcx;
    let ty = self.inst(f, c.const_.ty());
    if let Const::Unevaluated(uv, _) = c.const_ {
      if let Some(p) = uv.promoted {
        let facts = if uv.def == f.body.source.def_id() {
          f.facts
        } else if let Some(l) = uv.def.as_local() {
          get_body_with_borrowck_facts(tcx, l)
        } else {
          return unsup("foreign promoted");
        };
        let body = &facts.promoted[p];
        self.depth += 1;
        let r = self.run_body(body, facts, f.args, vec![], &mut NoObs);
        self.depth -= 1;
        return r;
      }
    }
    match ty.kind() {
      TyKind::FnDef(d, _) => return Ok(Val::Fn(*d)),
      TyKind::Tuple(t) if t.is_empty() => return Ok(Val::Agg(vec![])),
      TyKind::Bool | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Char => {
        let bits = ty::EarlyBinder::bind(tcx.erase_regions(c.const_)).instantiate(tcx, f.args).try_eval_bits(tcx, ty::TypingEnv::fully_monomorphized());
        let Some(bits) = bits else { return unsup("const bits") };
        return Ok(match ty.kind() {
          TyKind::Bool => Val::Bool(bits != 0),
          _ => Val::Int(wrap(bits as i128, ty)),
        });
      }
      TyKind::Ref(_, t, _) if t.is_str() => return Ok(Val::Opaque),
      TyKind::Adt(d, _) if d.is_struct() && d.all_fields().count() == 0 => {
        return Ok(Val::Agg(vec![]));
      }
      TyKind::Closure(d, _) => { let _ = d; return Ok(Val::Agg(vec![])); }
      _ => {}
    }
    // a static which nobody can write
    if let Const::Val(ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(ptr, _)), _) = c.const_
      && let rustc_middle::mir::interpret::GlobalAlloc::Static(d) = tcx.global_alloc(ptr.provenance.alloc_id())
      && let Some(l) = d.as_local() && !tcx.is_mutable_static(d)
    {
      let facts = get_body_with_borrowck_facts(tcx, l);
      self.depth += 1;
      let r = self.run_body(&facts.body, facts, ty::List::empty(), vec![], &mut NoObs);
      self.depth -= 1;
      let alloc = self.alloc(r?);
      return Ok(Val::Ptr(Ptr { alloc, path: vec![], owned: false, raw: false }));
    }
    if let Const::Unevaluated(uv, _) = c.const_ {
      if let Some(l) = uv.def.as_local() {
        // a named const: interpret its body
        let facts = get_body_with_borrowck_facts(tcx, l);
        self.depth += 1;
        let r = self.run_body(&facts.body, facts, f.args, vec![], &mut NoObs);
        self.depth -= 1;
        return r;
      }
    }
    unsup(format!("const {:?}", c.const_))
  }

  fn operand(&mut self, f: &Frame<'tcx>, op: &Operand<'tcx>) -> R<Val> {
    match op {
      Operand::Copy(p) => {
        let c = self.place(f, *p)?;
        let v = self.read_cell(&c)?.clone();
        if v == Val::Uninit { return Err(Stop::Stuck("uninit".into())); }
        Ok(v)
      }
      Operand::Move(p) => {
        let c = self.place(f, *p)?;
        let ty = self.inst(f, p.ty(&f.body.local_decls, self.tcx).ty);
        let keep = ty.is_ref() || ty.is_scalar();
        let v = self.read_cell(&c)?;
        if *v == Val::Uninit { return Err(Stop::Stuck("uninit".into())); }
        // Moving a reference or scalar leaves the bits in place (as MIR semantics allows);
        // anything else becomes uninitialised so that drops are elaborated dynamically.
        Ok(if keep { v.clone() } else { std::mem::replace(v, Val::Uninit) })
      }
      Operand::Constant(c) => self.constant(f, c),
    }
  }

  fn binop(&self, op: BinOp, a: Val, b: Val, ty: Ty<'tcx>) -> R<Val> {
    use BinOp::*;
    let cmp = |o: std::cmp::Ordering| match op {
      Eq => Some(o.is_eq()), Ne => Some(o.is_ne()), Lt => Some(o.is_lt()),
      Le => Some(o.is_le()), Gt => Some(o.is_gt()), Ge => Some(o.is_ge()), _ => None,
    };
    match (a, b) {
      (Val::Int(a), Val::Int(b)) => {
        if let Some(r) = cmp(a.cmp(&b)) { return Ok(Val::Bool(r)); }
        let full = match op {
          Add | AddUnchecked | AddWithOverflow => a + b,
          Sub | SubUnchecked | SubWithOverflow => a - b,
          Mul | MulUnchecked | MulWithOverflow => a.wrapping_mul(b),
          Div => { if b == 0 { return Err(Stop::Panic) } a / b }
          Rem => { if b == 0 { return Err(Stop::Panic) } a % b }
          BitXor => a ^ b, BitAnd => a & b, BitOr => a | b,
          Shl | ShlUnchecked => a << (b & 31), Shr | ShrUnchecked => a >> (b & 31),
          _ => return unsup(format!("binop {op:?}")),
        };
        let w = wrap(full, ty);
        Ok(match op {
          AddWithOverflow | SubWithOverflow | MulWithOverflow =>
            Val::Agg(vec![Val::Int(w), Val::Bool(w != full)]),
          _ => Val::Int(w),
        })
      }
      (Val::Bool(a), Val::Bool(b)) => {
        if let Some(r) = cmp(a.cmp(&b)) { return Ok(Val::Bool(r)); }
        Ok(Val::Bool(match op { BitXor => a ^ b, BitAnd => a & b, BitOr => a | b,
          _ => return unsup("boolop") }))
      }
      (a, b) => unsup(format!("binop {op:?} {a:?} {b:?}")),
    }
  }

  fn rvalue(&mut self, f: &Frame<'tcx>, rv: &Rvalue<'tcx>) -> R<Val> {
    let tcx = self.tcx;
    match rv {
      Rvalue::Use(op) => self.operand(f, op),
      Rvalue::Repeat(op, n) => {
        let v = self.operand(f, op)?;
        let n = ty::EarlyBinder::bind(*n).instantiate(tcx, f.args);
        let Some(n) = n.try_to_target_usize(tcx) else { return unsup("repeat") };
        if n > 16 { return unsup("repeat len"); }
        Ok(Val::Agg(vec![v; n as usize]))
      }
      Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) => {
        let raw = matches!(rv, Rvalue::RawPtr(..));
        let c = self.place(f, *p)?;
        // the cell must exist
        self.peek(&c)?;
        Ok(Val::Ptr(Ptr { alloc: c.0, path: c.1, owned: false, raw }))
      }
      Rvalue::Len(p) => { let c = self.place(f, *p)?; Ok(Val::Int(self.len_of(&c)? as i128)) }
      Rvalue::Cast(kind, op, ty) => {
        let v = self.operand(f, op)?;
        let ty = self.inst(f, *ty);
        match kind {
          CastKind::IntToInt => match v {
            Val::Int(i) => Ok(Val::Int(wrap(i, ty))),
            Val::Bool(b) => Ok(Val::Int(b as i128)),
            Val::Enum(d, _) => Ok(Val::Int(d as i128)),
            o => unsup(format!("cast {o:?}")),
          },
          CastKind::PointerCoercion(c, _) => {
            use rustc_middle::ty::adjustment::PointerCoercion::*;
            match c {
              ReifyFnPointer | UnsafeFnPointer | MutToConstPointer | ArrayToPointer => Ok(v),
              ClosureFnPointer(_) => {
                let t = self.inst(f, op.ty(&f.body.local_decls, tcx));
                match t.kind() { TyKind::Closure(d, _) => Ok(Val::Fn(*d)), _ => unsup("closure cast") }
              }
              Unsize => {
                // array-to-slice only (no vtables)
                let src = self.inst(f, op.ty(&f.body.local_decls, tcx));
                let inner = src.builtin_deref(true);
                match inner.map(|t| t.kind()) {
                  Some(TyKind::Array(..)) => Ok(v),
                  _ => {
                    // what a trait object is, is known by where it is
                    let (from, to) = (src.builtin_deref(true).or(src.boxed_ty()), ty.builtin_deref(true).or(ty.boxed_ty()));
                    match (from, to.map(|t| t.kind()), &v) {
                      (Some(t), Some(TyKind::Dynamic(..)), Val::Ptr(p)) if !matches!(t.kind(), TyKind::Dynamic(..)) => { self.objects.insert((p.alloc, p.path.clone()), t); Ok(v) }
                      (Some(_), Some(TyKind::Dynamic(..)), Val::Ptr(_)) => Ok(v),
                      _ => unsup("unsize"),
                    }
                  }
                }
              }
            }
          }
          CastKind::PtrToPtr => Ok(v),
          CastKind::Transmute => Ok(v),
          k => unsup(format!("cast {k:?}")),
        }
      }
      Rvalue::BinaryOp(op, b) => {
        let ty = self.inst(f, b.0.ty(&f.body.local_decls, tcx));
        let x = self.operand(f, &b.0)?;
        let y = self.operand(f, &b.1)?;
        self.binop(*op, x, y, ty)
      }
      Rvalue::UnaryOp(op, a) => {
        let ty = self.inst(f, a.ty(&f.body.local_decls, tcx));
        let v = self.operand(f, a)?;
        match (op, v) {
          (UnOp::Not, Val::Bool(b)) => Ok(Val::Bool(!b)),
          (UnOp::Not, Val::Int(i)) => Ok(Val::Int(wrap(!i, ty))),
          (UnOp::Neg, Val::Int(i)) => Ok(Val::Int(wrap(-i, ty))),
          (UnOp::PtrMetadata, Val::Ptr(p)) => Ok(Val::Int(self.len_of(&(p.alloc, p.path))? as i128)),
          (o, v) => unsup(format!("unop {o:?} {v:?}")),
        }
      }
      Rvalue::Discriminant(p) => {
        let c = self.place(f, *p)?;
        let ty = self.inst(f, p.ty(&f.body.local_decls, tcx).ty);
        match self.read_cell(&c)? {
          Val::Enum(v, _) => {
            let v = *v;
            let d = match ty.discriminant_for_variant(tcx, rustc_abi::VariantIdx::from_u32(v)) {
              Some(d) => d.val as i128,
              None => v as i128,
            };
            Ok(Val::Int(d))
          }
          Val::Uninit => Err(Stop::Stuck("discr uninit".into())),
          o => unsup(format!("discr {o:?}")),
        }
      }
      Rvalue::Aggregate(kind, ops) => {
        let mut vs = Vec::with_capacity(ops.len());
        for op in ops.iter() { vs.push(self.operand(f, op)?); }
        match &**kind {
          AggregateKind::Adt(d, v, _, _, active) => {
            if active.is_some() { return unsup("union"); }
            if tcx.adt_def(*d).is_enum() { Ok(Val::Enum(v.as_u32(), vs)) } else { Ok(Val::Agg(vs)) }
          }
          AggregateKind::Tuple | AggregateKind::Array(_) | AggregateKind::Closure(..) | AggregateKind::Coroutine(..) => Ok(Val::Agg(vs)),
          k => unsup(format!("aggregate {k:?}")),
        }
      }
      Rvalue::CopyForDeref(p) => self.operand(f, &Operand::Copy(*p)),
      rv => unsup(format!("rvalue {rv:?}")),
    }
  }

  /// Run a full call to a local function.
  fn call_fn(&mut self, def: DefId, gargs: GenericArgsRef<'tcx>, args: Vec<Val>) -> R<Val> {
    let Some(local) = def.as_local() else {
      return unsup(format!("foreign call {}", self.tcx.def_path_str(def)));
    };
    if self.tcx.hir_maybe_body_owned_by(local).is_none() {
      return unsup("no body");
    }
    let facts = get_body_with_borrowck_facts(self.tcx, local);
    if facts.body.tainted_by_errors.is_some() { return unsup("tainted callee"); }
    self.depth += 1;
    if self.depth > 12 { self.depth -= 1; return Err(Stop::Fuel); }
    let r = self.run_body(&facts.body, facts, gargs, args, &mut NoObs);
    self.depth -= 1;
    r
  }

  fn call(
    &mut self, f: &Frame<'tcx>, func: &Operand<'tcx>, args: Vec<Val>, arg_tys: &[Ty<'tcx>],
  ) -> R<Val> {
    let tcx = self.tcx;
    let fty = self.inst(f, func.ty(&f.body.local_decls, tcx));
    let (def, gargs) = match fty.kind() {
      TyKind::FnDef(d, a) => (*d, *a),
      TyKind::FnPtr(..) => match self.operand(f, func)? {
        Val::Fn(d) => {
          if tcx.is_closure_like(d) {
            let mut a = vec![Val::Agg(vec![])];
            a.extend(args);
            // closure bodies take self + untupled args
            return self.call_fn(d, ty::GenericArgs::identity_for_item(tcx, d), a);
          }
          (d, ty::GenericArgs::identity_for_item(tcx, d))
        }
        o => return unsup(format!("call ptr {o:?}")),
      },
      _ => return unsup("call target"),
    };
    let path = tcx.def_path_str(def);
    if let Some(r) = self.intrinsic(&path, &args, f, arg_tys) { return r; }
    // closures: Fn*/call*
    if path.ends_with("::call") || path.ends_with("::call_mut") || path.ends_with("::call_once") {
      let mut recv = arg_tys[0];
      let mut args = args;
      // references to functions are functions
      while let TyKind::Ref(_, t, _) = recv.kind() && let TyKind::Ref(..) = t.kind() {
        let Val::Ptr(p) = &args[0] else { return unsup("reference to function") };
        args[0] = self.peek(&(p.alloc, p.path.clone()))?.clone();
        recv = *t;
      }
      let (mut cty, mut by_ref) = match recv.kind() { TyKind::Ref(_, t, _) => (*t, true), _ => (recv, false) };
      // boxed functions, and functions as trait objects
      if cty.is_box() {
        if by_ref {
          let Val::Ptr(p) = &args[0] else { return unsup("reference to box") };
          args[0] = self.peek(&(p.alloc, p.path.clone()))?.clone();
        }
        cty = cty.expect_boxed_ty();
        by_ref = true;
      }
      if let TyKind::Dynamic(..) = cty.kind() {
        let Val::Ptr(p) = &args[0] else { return unsup("trait object") };
        let Some(t) = self.objects.get(&(p.alloc, p.path.clone())) else { return Err(Stop::Stuck("trait object".into())) };
        cty = *t;
      }
      match cty.kind() {
        TyKind::Closure(d, cargs) => {
          let kind = cargs.as_closure().kind();
          let mut it = args.into_iter();
          let me = it.next().unwrap();
          let Some(Val::Agg(rest)) = it.next() else { return unsup("closure args") };
          let me = if kind == ty::ClosureKind::FnOnce {
            match me {
              Val::Ptr(p) if by_ref => {
                let me = std::mem::replace(self.peek(&(p.alloc, p.path))?, Val::Uninit);
                if me == Val::Uninit { return Err(Stop::Stuck("called twice".into())); }
                me
              }
              me => me,
            }
          } else if by_ref { me } else {
            let a = self.alloc(me);
            Val::Ptr(Ptr { alloc: a, path: vec![], owned: false, raw: false })
          };
          let mut a = vec![me];
          a.extend(rest);
          return self.call_fn(*d, cargs, a);
        }
        TyKind::FnDef(d, a) => {
          let Some(Val::Agg(rest)) = args.into_iter().nth(1) else { return unsup("fn args") };
          return self.call_fn(*d, a, rest);
        }
        TyKind::FnPtr(..) => {
          let me = match (&args[0], by_ref) {
            (Val::Ptr(p), true) => self.peek(&(p.alloc, p.path.clone()))?.clone(),
            (v, _) => v.clone(),
          };
          let Val::Fn(d) = me else { return unsup("fnptr call") };
          let Some(Val::Agg(rest)) = args.into_iter().nth(1) else { return unsup("fn args") };
          return self.call_fn(d, ty::GenericArgs::identity_for_item(tcx, d), rest);
        }
        _ => return unsup("call trait"),
      }
    }
    // awaiting: what a future does happens when it is first polled
    if path.ends_with("future::Future::poll") && let Val::Agg(pin) = &args[0] && let Some(Val::Ptr(p)) = pin.first() {
      let TyKind::Adt(_, pargs) = arg_tys[0].kind() else { return unsup("poll") };
      let Some(fut) = pargs.type_at(0).builtin_deref(true) else { return unsup("poll") };
      if let TyKind::Coroutine(d, cargs) = fut.kind() {
        let at = (p.alloc, p.path.clone());
        let me = std::mem::replace(self.peek(&at)?, Val::Uninit);
        if me == Val::Uninit { return Err(Stop::Panic); }
        return Ok(Val::Enum(0, vec![self.call_fn(*d, cargs, vec![me, Val::Opaque])?]));
      }
    }
    // trait methods
    let gargs = tcx.erase_regions(gargs);
    match ty::Instance::try_resolve(tcx, ty::TypingEnv::fully_monomorphized(), def, gargs) {
      Ok(Some(inst)) => match inst.def {
        ty::InstanceKind::Item(d) => {
          let p2 = tcx.def_path_str(d);
          if p2 != path {
            if let Some(r) = self.intrinsic(&p2, &args, f, arg_tys) { return r; }
          }
          self.call_fn(d, inst.args, args)
        }
        ty::InstanceKind::CloneShim(..) => {
          let Val::Ptr(p) = &args[0] else { return unsup("clone") };
          Ok(self.peek(&(p.alloc, p.path.clone()))?.clone())
        }
        ty::InstanceKind::Virtual(..) => {
          let Val::Ptr(p) = &args[0] else { return unsup("trait object") };
          let Some(t) = self.objects.get(&(p.alloc, p.path.clone())).copied() else { return Err(Stop::Stuck("trait object".into())) };
          let gargs = tcx.mk_args_from_iter(std::iter::once(tcx.erase_regions(t).into()).chain(gargs.iter().skip(1)));
          match ty::Instance::try_resolve(tcx, ty::TypingEnv::fully_monomorphized(), def, gargs) {
            Ok(Some(ty::Instance { def: ty::InstanceKind::Item(d), args: a })) => self.call_fn(d, a, args),
            _ => unsup(format!("unresolved {path}")),
          }
        }
        k => unsup(format!("instance {k:?}")),
      },
      _ => unsup(format!("unresolved {path}")),
    }
  }

  /// Library functions modelled directly (their documented semantics).
  fn intrinsic(
    &mut self, path: &str, args: &[Val], _f: &Frame<'tcx>, arg_tys: &[Ty<'tcx>],
  ) -> Option<R<Val>> {
    let ptr = |v: &Val| match v { Val::Ptr(p) => Some((p.alloc, p.path.clone())), _ => None };
    macro_rules! tri { ($e:expr) => { match $e { Ok(x) => x, Err(e) => return Some(Err(e)) } } }
    let none = || Val::Enum(0, vec![]);
    let some = |v| Val::Enum(1, vec![v]);
    let mkref = |c: Cell| Val::Ptr(Ptr { alloc: c.0, path: c.1, owned: false, raw: false });
    let p = path;
    Some(match p {
      "std::boxed::Box::<T>::new" => {
        let a = self.alloc(args[0].clone());
        Ok(Val::Ptr(Ptr { alloc: a, path: vec![], owned: true, raw: false }))
      }
      "std::mem::swap" => {
        let (a, b) = (ptr(&args[0])?, ptr(&args[1])?);
        let va = tri!(self.read_cell(&a)).clone();
        let vb = tri!(self.read_cell(&b)).clone();
        tri!(self.write_cell(&a, vb));
        tri!(self.write_cell(&b, va));
        Ok(Val::Agg(vec![]))
      }
      "std::mem::replace" => {
        let a = ptr(&args[0])?;
        let va = tri!(self.read_cell(&a)).clone();
        tri!(self.write_cell(&a, args[1].clone()));
        Ok(va)
      }
      "std::future::IntoFuture::into_future" if matches!(arg_tys[0].kind(), TyKind::Coroutine(..)) => Ok(args[0].clone()),
      "std::pin::Pin::<Ptr>::new_unchecked" => Ok(Val::Agg(vec![args[0].clone()])),
      "std::future::get_context" => {
        let a = self.alloc(Val::Opaque);
        Ok(mkref((a, vec![])))
      }
      "std::mem::drop" => Ok(Val::Agg(vec![])),
      "std::mem::take" | "std::option::Option::<T>::take" => {
        let a = ptr(&args[0])?;
        let va = tri!(self.read_cell(&a)).clone();
        let d = match va { Val::Int(_) => Val::Int(0), Val::Bool(_) => Val::Bool(false), Val::Enum(..) => none(), _ => return Some(unsup("take")) };
        tri!(self.write_cell(&a, d));
        Ok(va)
      }
      "std::option::Option::<T>::replace" => {
        let a = ptr(&args[0])?;
        let va = tri!(self.read_cell(&a)).clone();
        tri!(self.write_cell(&a, some(args[1].clone())));
        Ok(va)
      }
      "std::option::Option::<T>::is_some" | "std::option::Option::<T>::is_none" => {
        let a = ptr(&args[0])?;
        match tri!(self.read_cell(&a)) {
          Val::Enum(v, _) => Ok(Val::Bool((*v == 1) == p.ends_with("is_some"))),
          _ => unsup("is_some"),
        }
      }
      "std::option::Option::<T>::unwrap" | "std::option::Option::<T>::expect" => match &args[0] {
        Val::Enum(1, f) => Ok(f[0].clone()),
        Val::Enum(0, _) => Err(Stop::Panic),
        _ => unsup("unwrap"),
      },
      "std::result::Result::<T, E>::ok" => match &args[0] {
        Val::Enum(0, f) => Ok(some(f[0].clone())),
        Val::Enum(1, _) => Ok(none()),
        _ => unsup("ok"),
      },
      "std::option::Option::<T>::unwrap_or" => match &args[0] {
        Val::Enum(1, f) => Ok(f[0].clone()),
        Val::Enum(0, _) => Ok(args[1].clone()),
        _ => unsup("unwrap_or"),
      },
      "std::option::Option::<T>::as_ref" | "std::option::Option::<T>::as_mut" => {
        let a = ptr(&args[0])?;
        match tri!(self.read_cell(&a)) {
          Val::Enum(1, _) => { let mut c = a; c.1.push(0); Ok(some(mkref(c))) }
          Val::Enum(0, _) => Ok(none()),
          _ => unsup("as_ref"),
        }
      }
      "std::vec::Vec::<T>::new" => Ok(Val::Agg(vec![Val::Agg(vec![])])),
      "std::vec::Vec::<T, A>::push" => {
        let mut a = ptr(&args[0])?;
        a.1.push(0);
        let n = tri!(self.len_of(&a));
        if n >= 8 { return Some(Err(Stop::Fuel)); }
        match tri!(self.read_cell(&a)) { Val::Agg(f) => f.push(Val::Uninit), _ => return Some(unsup("push")) }
        a.1.push(n as u32);
        tri!(self.write_cell(&a, args[1].clone()));
        Ok(Val::Agg(vec![]))
      }
      "std::vec::Vec::<T, A>::pop" => {
        let mut a = ptr(&args[0])?;
        let whole = a.clone();
        a.1.push(0);
        let r = match tri!(self.read_cell(&a)) { Val::Agg(f) => f.pop(), _ => return Some(unsup("pop")) };
        self.writes.push(whole);
        Ok(match r { Some(v) => some(v), None => none() })
      }
      "std::vec::Vec::<T, A>::len" => {
        let mut a = ptr(&args[0])?;
        a.1.push(0);
        Ok(Val::Int(tri!(self.len_of(&a)) as i128))
      }
      "std::ops::Index::index" | "std::ops::IndexMut::index_mut" => {
        if args[1] == Val::Agg(vec![]) {
          // v[..]
          let mut a = ptr(&args[0])?;
          if matches!(arg_tys[0].builtin_deref(true).map(|t| t.kind()), Some(TyKind::Adt(..))) { a.1.push(0); }
          return Some(Ok(mkref(a)));
        }
        let Val::Int(i) = args[1] else { return Some(unsup("index")) };
        let is_vec = matches!(arg_tys[0].builtin_deref(true).map(|t| t.kind()), Some(TyKind::Adt(..)));
        let mut a = ptr(&args[0])?;
        if is_vec { a.1.push(0); }
        let n = tri!(self.len_of(&a)) as i128;
        if i < 0 || i >= n { return Some(Err(Stop::Panic)); }
        a.1.push(i as u32);
        Ok(mkref(a))
      }
      "core::slice::<impl [T]>::swap" => {
        let (Val::Int(i), Val::Int(j)) = (&args[1], &args[2]) else { return Some(unsup("swap")) };
        let a = ptr(&args[0])?;
        let n = tri!(self.len_of(&a)) as i128;
        if *i < 0 || *i >= n || *j < 0 || *j >= n { return Some(Err(Stop::Panic)); }
        let at = |i: i128| { let mut c = a.clone(); c.1.push(i as u32); c };
        let (va, vb) = (tri!(self.read_cell(&at(*i))).clone(), tri!(self.read_cell(&at(*j))).clone());
        tri!(self.write_cell(&at(*i), vb));
        tri!(self.write_cell(&at(*j), va));
        Ok(Val::Agg(vec![]))
      }
      "core::slice::<impl [T]>::len" => {
        let a = ptr(&args[0])?;
        Ok(Val::Int(tri!(self.len_of(&a)) as i128))
      }
      "core::slice::<impl [T]>::get" | "core::slice::<impl [T]>::get_mut" => {
        let Val::Int(i) = args[1] else { return Some(unsup("get")) };
        let mut a = ptr(&args[0])?;
        let n = tri!(self.len_of(&a)) as i128;
        if i < 0 || i >= n { return Some(Ok(none())); }
        a.1.push(i as u32);
        Ok(some(mkref(a)))
      }
      "std::ops::Deref::deref" | "std::ops::DerefMut::deref_mut" => {
        let is_vec = match arg_tys[0].builtin_deref(true).map(|t| t.kind()) {
          Some(TyKind::Adt(d, _)) => self.tcx.def_path_str(d.did()) == "std::vec::Vec",
          _ => false,
        };
        if !is_vec { return None; }
        let mut a = ptr(&args[0])?;
        a.1.push(0);
        Ok(mkref(a))
      }
      "std::iter::IntoIterator::into_iter" => {
        let is_range = matches!(arg_tys[0].kind(), TyKind::Adt(d, _) if self.tcx.def_path_str(d.did()).ends_with("ops::Range"));
        let is_iter = matches!(arg_tys[0].kind(), TyKind::Adt(d, _) if { let p = self.tcx.def_path_str(d.did()); p == "std::slice::Iter" || p == "std::slice::IterMut" });
        if is_range || is_iter { return Some(Ok(args[0].clone())); }
        // references to arrays, slices and vectors
        let TyKind::Ref(_, t, _) = arg_tys[0].kind() else { return None };
        let is_vec = matches!(t.kind(), TyKind::Adt(d, _) if self.tcx.def_path_str(d.did()) == "std::vec::Vec");
        if !is_vec && !matches!(t.kind(), TyKind::Array(..) | TyKind::Slice(_)) {
          return None;
        }
        let mut a = ptr(&args[0])?;
        if is_vec { a.1.push(0); }
        Ok(Val::Agg(vec![mkref(a), Val::Int(0)]))
      }
      "core::slice::<impl [T]>::iter" | "core::slice::<impl [T]>::iter_mut" => {
        let a = ptr(&args[0])?;
        Ok(Val::Agg(vec![mkref(a), Val::Int(0)]))
      }
      "std::ops::Try::branch" => match &args[0] {
        Val::Enum(d, f) => {
          let is_opt = matches!(arg_tys[0].kind(), TyKind::Adt(d, _) if self.tcx.def_path_str(d.did()) == "std::option::Option");
          let good = if is_opt { 1 } else { 0 };
          if *d == good { Ok(Val::Enum(0, f.clone())) } else { Ok(Val::Enum(1, vec![Val::Enum(*d, f.clone())])) }
        }
        _ => unsup("branch"),
      },
      "std::ops::FromResidual::from_residual" => Ok(args[0].clone()),
      "std::iter::Iterator::next" => {
        let is_range = match arg_tys[0].builtin_deref(true).map(|t| t.kind()) {
          Some(TyKind::Adt(d, _)) => self.tcx.def_path_str(d.did()).ends_with("ops::Range"),
          _ => false,
        };
        let is_slice = match arg_tys[0].builtin_deref(true).map(|t| t.kind()) {
          Some(TyKind::Adt(d, _)) => { let p = self.tcx.def_path_str(d.did()); p == "std::slice::Iter" || p == "std::slice::IterMut" }
          _ => false,
        };
        if is_slice {
          let a = ptr(&args[0])?;
          let (mut c, i) = match tri!(self.read_cell(&a)) {
            Val::Agg(f) => match (&f[0], &f[1]) { (Val::Ptr(p), Val::Int(i)) => ((p.alloc, p.path.clone()), *i), _ => return Some(unsup("iter")) },
            _ => return Some(unsup("iter")),
          };
          let n = tri!(self.len_of(&c)) as i128;
          if i < 0 { return Some(Err(Stop::Panic)); }
          if i >= n { return Some(Ok(none())); }
          let mut k = a.clone();
          k.1.push(1);
          tri!(self.write_cell(&k, Val::Int(i + 1)));
          c.1.push(i as u32);
          return Some(Ok(some(mkref(c))));
        }
        if !is_range { return None; }
        let a = ptr(&args[0])?;
        let (s, e) = match tri!(self.read_cell(&a)) {
          Val::Agg(f) => match (&f[0], &f[1]) { (Val::Int(s), Val::Int(e)) => (*s, *e), _ => return Some(unsup("range")) },
          _ => return Some(unsup("range")),
        };
        if s < e {
          let mut c = a.clone();
          c.1.push(0);
          tri!(self.write_cell(&c, Val::Int(s + 1)));
          Ok(some(Val::Int(s)))
        } else { Ok(none()) }
      }
      _ => return None,
    })
  }

  fn drop_val(&mut self, f: &Frame<'tcx>, c: &Cell, ty: Ty<'tcx>) -> R<()> {
    let tcx = self.tcx;
    let v = match self.peek(c) { Ok(v) => v.clone(), Err(_) => return Ok(()) };
    if v == Val::Uninit { return Ok(()); }
    let ty = self.inst(f, ty);
    match (ty.kind(), &v) {
      (TyKind::Adt(d, args), _) if d.is_box() => {
        if let Val::Ptr(p) = &v {
          let inner = args.type_at(0);
          let c2 = (p.alloc, p.path.clone());
          self.drop_val(f, &c2, inner)?;
          // freed
          if p.path.is_empty() { self.mem[p.alloc] = Val::Uninit; }
        }
      }
      (TyKind::Adt(d, args), v) => {
        // destructors of library types have no effect on anything the programs can observe
        if let Some(dtor) = tcx.adt_destructor(d.did()) && dtor.did.is_local() {
          let me = Val::Ptr(Ptr { alloc: c.0, path: c.1.clone(), owned: false, raw: false });
          self.call_fn(dtor.did, args, vec![me])?;
        }
        if d.did().is_local() || d.is_enum() {
          let (variant, n) = match v {
            Val::Enum(i, f) => (d.variant(rustc_abi::VariantIdx::from_u32(*i)), f.len()),
            Val::Agg(f) if d.is_struct() => (d.non_enum_variant(), f.len()),
            _ => return Ok(()),
          };
          for (i, fd) in variant.fields.iter().enumerate().take(n) {
            let mut c2 = c.clone();
            c2.1.push(i as u32);
            self.drop_val(f, &c2, fd.ty(tcx, args))?;
          }
        }
      }
      (TyKind::Tuple(tys), Val::Agg(fs)) => {
        for i in 0 .. fs.len() {
          let mut c2 = c.clone();
          c2.1.push(i as u32);
          self.drop_val(f, &c2, tys[i])?;
        }
      }
      _ => {}
    }
    Ok(())
  }

  fn hits(&self, loc: Location, visit: usize) -> Option<PKind> {
    if self.depth > 0 { return None; }
    let p = self.perturb.as_ref()?;
    (p.loc == loc && p.visit.map(|v| v == visit).unwrap_or(true)).then(|| p.kind.clone())
  }

  fn perturb_value(&mut self, v: &mut Val, k: &PKind) {
    match k {
      PKind::Write { leaf, alt } => {
        if perturb_scalar(v, &mut 0, *leaf, *alt) { self.perturb_hit = true; }
      }
      PKind::Retarget { leaf } => {
        let old = match nth_ptr(v, &mut 0, *leaf) { Some(p) => p.clone(), None => return };
        let Ok(mut pointee) = self.peek(&(old.alloc, old.path.clone())).map(|v| v.clone()) else { return };
        // fresh cell with every scalar changed
        let (mut s, mut q) = (0, 0);
        leaves(&pointee, &mut s, &mut q);
        for l in 0 .. s { perturb_scalar(&mut pointee, &mut 0, l, 0); }
        let a = self.alloc(pointee);
        if let Some(p) = nth_ptr(v, &mut 0, *leaf) {
          *p = Ptr { alloc: a, path: vec![], owned: old.owned, raw: old.raw };
          self.perturb_hit = true;
        }
      }
      _ => {}
    }
  }

  pub fn run_body(
    &mut self, body: &'tcx Body<'tcx>, facts: &'tcx BodyWithBorrowckFacts<'tcx>,
    gargs: GenericArgsRef<'tcx>, args: Vec<Val>, obs: &mut dyn Observer<'tcx>,
  ) -> R<Val> {
    let locals = (0 .. body.local_decls.len()).map(|_| self.alloc(Val::Uninit)).collect::<Vec<_>>();
    let f = Frame { body, facts, args: gargs, locals };
    if let Some(spread) = body.spread_arg {
      let _ = spread;
      return unsup("spread");
    }
    if args.len() != body.arg_count { return unsup("arity"); }
    for (i, v) in args.into_iter().enumerate() {
      let a = f.locals[i + 1];
      self.mem[a] = v;
    }
    self.exec(&f, obs)?;
    let r = f.locals[0];
    Ok(self.mem[r].clone())
  }

  pub fn exec(&mut self, f: &Frame<'tcx>, obs: &mut dyn Observer<'tcx>) -> R<()> {
    let tcx = self.tcx;
    let top = self.depth == 0;
    let mut bb = START_BLOCK;
    loop {
      let data = &f.body.basic_blocks[bb];
      for (i, stmt) in data.statements.iter().enumerate() {
        if self.fuel == 0 { return Err(Stop::Fuel); }
        self.fuel -= 1;
        self.nsteps += 1;
        let loc = Location { block: bb, statement_index: i };
        let visit = if top { self.bump(loc) } else { 0 };
        if top { self.writes.clear(); self.reads.clear(); obs.before(self, f, loc); }
        match &stmt.kind {
          StatementKind::Assign(b) => {
            let mut v = self.rvalue(f, &b.1)?;
            if top && self.record_steps {
              let (mut s, mut p) = (0, 0);
              leaves(&v, &mut s, &mut p);
              self.steps.push(Step { loc, visit, scalar_leaves: s, ptr_leaves: p, switch_targets: 0, taken: 0, call_cells: vec![] });
            }
            if let Some(k) = self.hits(loc, visit) { self.perturb_value(&mut v, &k); }
            let c = self.place(f, b.0)?;
            self.write_cell(&c, v)?;
          }
          StatementKind::SetDiscriminant { .. } => return unsup("setdiscr"),
          StatementKind::Intrinsic(_) => return unsup("intrinsic"),
          _ => {}
        }
        if top { obs.after(self, f, loc); }
      }
      if self.fuel == 0 { return Err(Stop::Fuel); }
      self.fuel -= 1;
      self.nsteps += 1;
      let loc = Location { block: bb, statement_index: data.statements.len() };
      let visit = if top { self.bump(loc) } else { 0 };
      if top { self.writes.clear(); self.reads.clear(); obs.before(self, f, loc); }
      let next = match &data.terminator().kind {
        TerminatorKind::Goto { target } => *target,
        TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => *real_target,
        TerminatorKind::SwitchInt { discr, targets } => {
          let v = self.operand(f, discr)?;
          let bits: u128 = match v {
            Val::Bool(b) => b as u128,
            Val::Int(i) => {
              let ty = self.inst(f, discr.ty(&f.body.local_decls, tcx));
              to_bits(i, ty)
            }
            o => return unsup(format!("switch {o:?}")),
          };
          let all = targets.all_targets();
          let mut taken = all.len() - 1;
          for (i, (val, _)) in targets.iter().enumerate() {
            if val == bits { taken = i; break; }
          }
          if top && self.record_steps {
            self.steps.push(Step { loc, visit, scalar_leaves: 0, ptr_leaves: 0, switch_targets: all.len(), taken, call_cells: vec![] });
          }
          if let Some(PKind::Switch { target }) = self.hits(loc, visit) {
            if all[target] != all[taken] { self.perturb_hit = true; }
            taken = target;
          }
          all[taken]
        }
        TerminatorKind::Return => {
          if top { obs.after(self, f, loc); }
          return Ok(());
        }
        TerminatorKind::Unreachable => return Err(Stop::Stuck("unreachable".into())),
        TerminatorKind::Drop { place, target, .. } => {
          if let Ok(c) = self.place(f, *place) {
            let ty = place.ty(&f.body.local_decls, tcx).ty;
            let d = self.depth;
            self.depth += 1;
            let r = self.drop_val(f, &c, ty);
            self.depth = d;
            r?;
            // after a drop the place is dead
            let ity = self.inst(f, ty);
            if !ity.is_ref() && !ity.is_scalar() {
              if let Ok(v) = self.peek(&c) { *v = Val::Uninit; }
            }
          }
          *target
        }
        TerminatorKind::Call { func, args, destination, target, .. } => {
          let mut vs = Vec::with_capacity(args.len());
          let mut tys = Vec::with_capacity(args.len());
          for a in args.iter() {
            tys.push(self.inst(f, a.node.ty(&f.body.local_decls, tcx)));
            vs.push(self.operand(f, &a.node)?);
          }
          let mark = self.mem.len();
          let wmark = self.writes.len();
          let d = self.depth;
          let (tr, tw) = (self.track_reads, self.track_writes);
          self.depth += 1; // writes made by intrinsics count as callee writes
          let r = self.call(f, func, vs, &tys);
          self.depth = d;
          self.track_reads = tr; self.track_writes = tw;
          let mut v = r?;
          let Some(target) = target else { return Err(Stop::Unwind) };
          if top {
            self.last_call_cells.clear();
            let mut cells: Vec<Cell> = vec![];
            for c in &self.writes[wmark ..] {
              if c.0 < mark && !cells.contains(c) { cells.push(c.clone()); }
            }
            self.last_call_cells = cells.clone();
            if self.record_steps {
              let (mut s, mut p) = (0, 0);
              leaves(&v, &mut s, &mut p);
              let mut call_cells = vec![];
              for c in &cells {
                let (mut s, mut p) = (0, 0);
                if let Ok(v) = self.peek(c) { leaves(v, &mut s, &mut p); }
                call_cells.push(s);
              }
              self.steps.push(Step { loc, visit, scalar_leaves: s, ptr_leaves: p, switch_targets: 0, taken: 0, call_cells });
            }
            if let Some(k) = self.hits(loc, visit) {
              match &k {
                PKind::CallCell { nth, leaf, alt } => {
                  if let Some(c) = cells.get(*nth) {
                    let c = c.clone();
                    let mut hit = false;
                    if let Ok(v) = self.peek(&c) { hit = perturb_scalar(v, &mut 0, *leaf, *alt); }
                    if hit { self.perturb_hit = true; }
                  }
                }
                k => self.perturb_value(&mut v, k),
              }
            }
          }
          let c = self.place(f, *destination)?;
          self.write_cell(&c, v)?;
          *target
        }
        TerminatorKind::Assert { cond, expected, target, .. } => {
          match self.operand(f, cond)? {
            Val::Bool(b) if b == *expected => *target,
            Val::Bool(_) => return Err(Stop::Panic),
            _ => return unsup("assert"),
          }
        }
        TerminatorKind::Yield { resume, resume_arg, .. } => {
          let c = self.place(f, *resume_arg)?;
          self.write_cell(&c, Val::Opaque)?;
          *resume
        }
        TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => return Err(Stop::Panic),
        k => return unsup(format!("terminator {k:?}")),
      };
      if top { obs.after(self, f, loc); }
      bb = next;
    }
  }

  fn bump(&mut self, loc: Location) -> usize {
    let e = self.visits.entry(loc).or_insert(0);
    let v = *e;
    *e += 1;
    v
  }

  /// Deep (pointer-content) view of a value; pointers are replaced by their pointees.
  pub fn deep(&mut self, v: &Val, depth: usize) -> Val {
    match v {
      Val::Ptr(p) => {
        // raw pointers are not looked through: what they point to is not part of a value
        if depth == 0 || p.raw { return Val::Opaque; }
        match self.peek(&(p.alloc, p.path.clone())).map(|x| x.clone()) {
          Ok(inner) => Val::Agg(vec![self.deep(&inner, depth - 1)]),
          Err(_) => Val::Uninit,
        }
      }
      Val::Agg(f) => Val::Agg(f.iter().map(|x| self.deep(x, depth)).collect()),
      Val::Enum(i, f) => Val::Enum(*i, f.iter().map(|x| self.deep(x, depth)).collect()),
      v => v.clone(),
    }
  }
}

pub fn has_uninit(v: &Val) -> bool {
  match v {
    Val::Uninit => true,
    Val::Agg(f) | Val::Enum(_, f) => f.iter().any(has_uninit),
    _ => false,
  }
}

pub fn wrap(v: i128, ty: Ty<'_>) -> i128 {
  use rustc_middle::ty::{IntTy, UintTy};
  match ty.kind() {
    TyKind::Int(t) => match t {
      IntTy::I8 => v as i8 as i128, IntTy::I16 => v as i16 as i128, IntTy::I32 => v as i32 as i128,
      IntTy::I64 | IntTy::Isize => v as i64 as i128, IntTy::I128 => v,
    },
    TyKind::Uint(t) => match t {
      UintTy::U8 => v as u8 as i128, UintTy::U16 => v as u16 as i128, UintTy::U32 => v as u32 as i128,
      UintTy::U64 | UintTy::Usize => v as u64 as i128, UintTy::U128 => v,
    },
    _ => v,
  }
}

fn to_bits(v: i128, ty: Ty<'_>) -> u128 {
  use rustc_middle::ty::IntTy;
  match ty.kind() {
    TyKind::Int(t) => match t {
      IntTy::I8 => v as u8 as u128, IntTy::I16 => v as u16 as u128, IntTy::I32 => v as u32 as u128,
      IntTy::I64 | IntTy::Isize => v as u64 as u128, IntTy::I128 => v as u128,
    },
    _ => v as u128,
  }
}
