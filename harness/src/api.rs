//! Bridges between model programs and the library: construction through the
//! builder interface, and extraction through the query interface.

use crate::model::*;
use crate::rng::Rng;
use koopa::ir::builder_traits::*;
use koopa::ir::*;
use std::collections::HashMap;

thread_local! {
  static TYCACHE: std::cell::RefCell<HashMap<T, Type>> = Default::default();
}

pub fn ty(t: &T) -> Type {
  match t {
    T::I32 => Type::get_i32(),
    T::Unit => Type::get_unit(),
    T::Ptr(t) => Type::get_pointer(ty(t)),
    T::Arr(t, n) => Type::get_array(ty(t), *n),
    T::Fun(ps, r) => Type::get_function(ps.iter().map(ty).collect(), ty(r)),
  }
}

pub fn from_ty(t: &Type) -> T {
  match t.kind() {
    TypeKind::Int32 => T::I32,
    TypeKind::Unit => T::Unit,
    TypeKind::Pointer(t) => T::ptr(from_ty(t)),
    TypeKind::Array(t, n) => T::arr(from_ty(t), *n),
    TypeKind::Function(ps, r) => T::fun(ps.iter().map(from_ty).collect(), from_ty(r)),
  }
}

pub fn bop(b: Bop) -> BinaryOp {
  match b {
    Bop::Ne => BinaryOp::NotEq,
    Bop::Eq => BinaryOp::Eq,
    Bop::Gt => BinaryOp::Gt,
    Bop::Lt => BinaryOp::Lt,
    Bop::Ge => BinaryOp::Ge,
    Bop::Le => BinaryOp::Le,
    Bop::Add => BinaryOp::Add,
    Bop::Sub => BinaryOp::Sub,
    Bop::Mul => BinaryOp::Mul,
    Bop::Div => BinaryOp::Div,
    Bop::Mod => BinaryOp::Mod,
    Bop::And => BinaryOp::And,
    Bop::Or => BinaryOp::Or,
    Bop::Xor => BinaryOp::Xor,
    Bop::Shl => BinaryOp::Shl,
    Bop::Shr => BinaryOp::Shr,
    Bop::Sar => BinaryOp::Sar,
  }
}

pub fn from_bop(b: BinaryOp) -> Bop {
  BOPS.iter().map(|b| b.0).find(|x| bop(*x) == b).unwrap()
}

pub fn const_global(p: &mut Program, c: &C) -> Value {
  match c {
    C::Int(i) => p.new_value().integer(*i),
    C::Zero(t) => p.new_value().zero_init(ty(t)),
    C::Undef(t) => p.new_value().undef(ty(t)),
    C::Agg(es) => {
      let es = es.iter().map(|e| const_global(p, e)).collect();
      p.new_value().aggregate(es)
    }
  }
}

pub fn const_local(f: &mut FunctionData, c: &C) -> Value {
  match c {
    C::Int(i) => f.dfg_mut().new_value().integer(*i),
    C::Zero(t) => f.dfg_mut().new_value().zero_init(ty(t)),
    C::Undef(t) => f.dfg_mut().new_value().undef(ty(t)),
    C::Agg(es) => {
      let es = es.iter().map(|e| const_local(f, e)).collect();
      f.dfg_mut().new_value().aggregate(es)
    }
  }
}

/// Handles of everything that was built.
#[derive(Default)]
pub struct Handles {
  pub globals: Vec<Value>,
  pub funcs: Vec<Function>,
  pub bbs: Vec<Vec<BasicBlock>>,
  pub insts: Vec<Vec<Vec<Value>>>,
}

/// Builds a model program. `r` varies the construction (sharing of constants,
/// order of construction, choice among equivalent builder methods).
pub fn build(m: &Prog, r: &mut Rng) -> (Program, Handles) {
  let mut p = Program::new();
  let h = build_on(&mut p, m, r);
  (p, h)
}

pub fn build_on(p: &mut Program, m: &Prog, r: &mut Rng) -> Handles {
  let mut h = Handles::default();
  for g in &m.globals {
    let init = const_global(p, &g.init);
    let v = p.new_value().global_alloc(init);
    if g.name.is_some() {
      p.set_value_name(v, g.name.clone());
    }
    h.globals.push(v);
  }
  for f in &m.funcs {
    let tys: Vec<Type> = f.params.iter().map(|p| ty(&p.1)).collect();
    let fh = if f.is_decl() {
      p.new_func_decl(f.name.clone(), tys, ty(&f.ret))
    } else if f.params.iter().all(|p| p.0.is_none()) && r.chance(1, 2) {
      p.new_func_def(f.name.clone(), tys, ty(&f.ret))
    } else if r.chance(1, 2) {
      let ps = f.params.iter().map(|p| (p.0.clone(), ty(&p.1))).collect();
      p.new_func_def_with_param_names(f.name.clone(), ps, ty(&f.ret))
    } else {
      let fh = p.new_func_def(f.name.clone(), tys, ty(&f.ret));
      let ps = p.func(fh).params().to_vec();
      for (v, (n, _)) in ps.into_iter().zip(&f.params) {
        p.func_mut(fh).dfg_mut().set_value_name(v, n.clone());
      }
      fh
    };
    h.funcs.push(fh);
  }
  let share = r.chance(1, 2);
  for (fi, f) in m.funcs.iter().enumerate() {
    let fd = p.func_mut(h.funcs[fi]);
    let mut bbs = vec![];
    for b in &f.blocks {
      let bb = if b.params.is_empty() && r.chance(1, 2) {
        fd.dfg_mut().new_bb().basic_block(b.name.clone())
      } else if b.params.iter().all(|p| p.0.is_none()) {
        let ps = b.params.iter().map(|p| ty(&p.1)).collect();
        fd.dfg_mut().new_bb().basic_block_with_params(b.name.clone(), ps)
      } else {
        let ps = b.params.iter().map(|p| (p.0.clone(), ty(&p.1))).collect();
        fd.dfg_mut().new_bb().basic_block_with_param_names(b.name.clone(), ps)
      };
      bbs.push(bb);
    }
    fd.layout_mut().bbs_mut().extend(bbs.iter().copied());
    let mut vals: Vec<Vec<Option<Value>>> = f.blocks.iter().map(|b| vec![None; b.insts.len()]).collect();
    let mut consts: HashMap<C, Value> = HashMap::new();
    // values must exist before their users: create in an order respecting that
    let mut todo: Vec<(usize, usize)> =
      f.blocks.iter().enumerate().flat_map(|(b, bl)| (0..bl.insts.len()).map(move |i| (b, i))).collect();
    while !todo.is_empty() {
      let mut rest = vec![];
      let before = todo.len();
      for (b, i) in todo {
        let inst = &f.blocks[b].insts[i];
        let ready = inst.k.ops().iter().all(|o| match o {
          Op::V(x, y) => vals[*x][*y].is_some(),
          _ => true,
        });
        if !ready {
          rest.push((b, i));
          continue;
        }
        let mut get = |o: &Op, fd: &mut FunctionData| -> Value {
          match o {
            Op::C(c) => {
              if share {
                if let Some(v) = consts.get(c) {
                  return *v;
                }
              }
              let v = const_local(fd, c);
              consts.insert(c.clone(), v);
              v
            }
            Op::G(g) => h.globals[*g],
            Op::P(i) => fd.params()[*i],
            Op::B(b, i) => fd.dfg().bb(bbs[*b]).params()[*i],
            Op::V(x, y) => vals[*x][*y].unwrap(),
          }
        };
        macro_rules! mk {
          ($e:ident ( $($a:expr),* )) => { fd.dfg_mut().new_value().$e($($a),*) };
        }
        let v = match &inst.k {
          K::Alloc => mk!(alloc(ty(inst.ty.pointee().unwrap()))),
          K::Load(a) => {
            let a = get(a, fd);
            mk!(load(a))
          }
          K::Store(a, d) => {
            let (a, d) = (get(a, fd), get(d, fd));
            mk!(store(a, d))
          }
          K::GetPtr(a, d) => {
            let (a, d) = (get(a, fd), get(d, fd));
            mk!(get_ptr(a, d))
          }
          K::GetElemPtr(a, d) => {
            let (a, d) = (get(a, fd), get(d, fd));
            mk!(get_elem_ptr(a, d))
          }
          K::Bin(o, a, d) => {
            let (a, d) = (get(a, fd), get(d, fd));
            mk!(binary(bop(*o), a, d))
          }
          K::Br(c, t, ta, e, ea) => {
            let c = get(c, fd);
            let ta: Vec<_> = ta.iter().map(|a| get(a, fd)).collect();
            let ea: Vec<_> = ea.iter().map(|a| get(a, fd)).collect();
            if ta.is_empty() && ea.is_empty() && r.chance(1, 2) {
              mk!(branch(c, bbs[*t], bbs[*e]))
            } else {
              mk!(branch_with_args(c, bbs[*t], bbs[*e], ta, ea))
            }
          }
          K::Jump(t, a) => {
            let a: Vec<_> = a.iter().map(|a| get(a, fd)).collect();
            if a.is_empty() && r.chance(1, 2) {
              mk!(jump(bbs[*t]))
            } else {
              mk!(jump_with_args(bbs[*t], a))
            }
          }
          K::Call(c, a) => {
            let a: Vec<_> = a.iter().map(|a| get(a, fd)).collect();
            mk!(call(h.funcs[*c], a))
          }
          K::Ret(v) => {
            let v = v.as_ref().map(|v| get(v, fd));
            mk!(ret(v))
          }
        };
        if inst.name.is_some() {
          fd.dfg_mut().set_value_name(v, inst.name.clone());
        }
        vals[b][i] = Some(v);
      }
      assert!(rest.len() < before, "model program has a cyclic definition");
      todo = rest;
    }
    let vals: Vec<Vec<Value>> = vals.into_iter().map(|b| b.into_iter().map(|v| v.unwrap()).collect()).collect();
    for (b, vs) in vals.iter().enumerate() {
      if r.chance(1, 2) {
        fd.layout_mut().bb_mut(bbs[b]).insts_mut().extend(vs.iter().copied());
      } else {
        for v in vs {
          fd.layout_mut().bb_mut(bbs[b]).insts_mut().push_key_back(*v).unwrap();
        }
      }
    }
    h.bbs.push(bbs);
    h.insts.push(vals);
  }
  h
}

fn konst(v: Value, local: Option<&FunctionData>, p: &Program) -> Result<C, String> {
  // the types of composite constants are checked by the verifier
  let (k, t) = match local {
    Some(f) if !v.is_global() => {
      let d = f.dfg().values().get(&v).ok_or("dangling local constant")?;
      (d.kind().clone(), d.ty().clone())
    }
    _ => {
      let vs = p.borrow_values();
      let d = vs.get(&v).ok_or("dangling global constant")?;
      (d.kind().clone(), d.ty().clone())
    }
  };
  Ok(match k {
    ValueKind::Integer(i) => C::Int(i.value()),
    ValueKind::ZeroInit(_) => C::Zero(from_ty(&t)),
    ValueKind::Undef(_) => C::Undef(from_ty(&t)),
    ValueKind::Aggregate(a) => {
      if a.elems().is_empty() {
        return Err("empty aggregate".into());
      }
      C::Agg(a.elems().iter().map(|e| konst(*e, local, p)).collect::<Result<_, _>>()?)
    }
    _ => return Err("operand is not a placed value or a constant".into()),
  })
}

/// Reads a program back into model form.
pub fn extract(p: &Program) -> Result<Prog, String> {
  let mut m = Prog::default();
  let mut gl = HashMap::new();
  for (i, g) in p.inst_layout().iter().enumerate() {
    let (name, init) = {
      let vs = p.borrow_values();
      let d = vs.get(g).ok_or("global of the layout does not exist")?;
      match d.kind() {
        ValueKind::GlobalAlloc(a) => (d.name().clone(), a.init()),
        k => return Err(format!("global layout holds {k:?}")),
      }
    };
    m.globals.push(Glob { name, init: konst(init, None, p)? });
    if gl.insert(*g, i).is_some() {
      return Err("global placed twice".into());
    }
  }
  let fidx: HashMap<Function, usize> = p.func_layout().iter().enumerate().map(|(i, f)| (*f, i)).collect();
  for f in p.func_layout() {
    let fd = p.funcs().get(f).ok_or("function of the layout does not exist")?;
    let (pt, rt) = match fd.ty().kind() {
      TypeKind::Function(p, r) => (p, r),
      t => return Err(format!("function type is {t}")),
    };
    let decl = fd.layout().bbs().is_empty();
    let mut params = vec![];
    let mut ops: HashMap<Value, Op> = HashMap::new();
    if decl {
      params.extend(pt.iter().map(|t| (None, from_ty(t))));
    } else {
      for (i, v) in fd.params().iter().enumerate() {
        let d = fd.dfg().values().get(v).ok_or("parameter does not exist")?;
        params.push((d.name().clone(), from_ty(d.ty())));
        ops.insert(*v, Op::P(i));
      }
    }
    let mut bidx = HashMap::new();
    for (bi, (bb, node)) in fd.layout().bbs().iter().enumerate() {
      bidx.insert(*bb, bi);
      let d = fd.dfg().bbs().get(bb).ok_or("placed block does not exist")?;
      for (i, v) in d.params().iter().enumerate() {
        ops.insert(*v, Op::B(bi, i));
      }
      for (i, v) in node.insts().keys().enumerate() {
        if ops.insert(*v, Op::V(bi, i)).is_some() {
          return Err("value placed twice".into());
        }
      }
    }
    let mut blocks = vec![];
    for (bb, node) in fd.layout().bbs() {
      let d = fd.dfg().bb(*bb);
      let mut bparams = vec![];
      for v in d.params() {
        let pd = fd.dfg().values().get(v).ok_or("block parameter does not exist")?;
        bparams.push((pd.name().clone(), from_ty(pd.ty())));
      }
      let mut insts = vec![];
      for v in node.insts().keys() {
        let vd = fd.dfg().values().get(v).ok_or("placed instruction does not exist")?;
        let op = |v: Value| -> Result<Op, String> {
          if let Some(g) = gl.get(&v) {
            return Ok(Op::G(*g));
          }
          if let Some(o) = ops.get(&v) {
            return Ok(o.clone());
          }
          Ok(Op::C(konst(v, Some(fd), p)?))
        };
        let ops_ = |vs: &[Value]| vs.iter().map(|v| op(*v)).collect::<Result<Vec<_>, _>>();
        let bb = |b: BasicBlock| bidx.get(&b).copied().ok_or("target block is not placed".to_string());
        let k = match vd.kind() {
          ValueKind::Alloc(_) => K::Alloc,
          ValueKind::Load(x) => K::Load(op(x.src())?),
          ValueKind::Store(x) => K::Store(op(x.value())?, op(x.dest())?),
          ValueKind::GetPtr(x) => K::GetPtr(op(x.src())?, op(x.index())?),
          ValueKind::GetElemPtr(x) => K::GetElemPtr(op(x.src())?, op(x.index())?),
          ValueKind::Binary(x) => K::Bin(from_bop(x.op()), op(x.lhs())?, op(x.rhs())?),
          ValueKind::Branch(x) => K::Br(
            op(x.cond())?,
            bb(x.true_bb())?,
            ops_(x.true_args())?,
            bb(x.false_bb())?,
            ops_(x.false_args())?,
          ),
          ValueKind::Jump(x) => K::Jump(bb(x.target())?, ops_(x.args())?),
          ValueKind::Call(x) => K::Call(
            *fidx.get(&x.callee()).ok_or("callee does not exist")?,
            ops_(x.args())?,
          ),
          ValueKind::Return(x) => K::Ret(x.value().map(op).transpose()?),
          k => return Err(format!("placed value is {k:?}")),
        };
        insts.push(Inst { name: vd.name().clone(), ty: from_ty(vd.ty()), k });
      }
      blocks.push(Block { name: d.name().clone(), params: bparams, insts });
    }
    m.funcs.push(Fun { name: fd.name().to_string(), params, ret: from_ty(rt), blocks });
  }
  Ok(m)
}

pub fn dump_koopa(p: &Program) -> Result<Vec<u8>, String> {
  let mut g = koopa::back::KoopaGenerator::new(Vec::new());
  g.generate_on(p).map_err(|e| format!("dump failed: {e}"))?;
  Ok(g.writer())
}

pub fn dump_llvm(p: &Program) -> Result<Vec<u8>, String> {
  let mut g = koopa::back::LlvmGenerator::new(Vec::new());
  g.generate_on(p).map_err(|e| format!("dump failed: {e}"))?;
  Ok(g.writer())
}

pub fn parse(s: &[u8]) -> Result<Program, koopa::front::span::Error> {
  koopa::front::Driver::new(koopa::front::span::FileType::Buffer, s).generate_program()
}
