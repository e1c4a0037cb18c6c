//! Program image: modules linked together, globals laid out, functions lowered on first use.
use crate::expr::mask;
use crate::ir::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(crate::expr::E),
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum LOp {
    R(u32),
    C(Val),
}

#[derive(Clone, Debug)]
pub enum LTy {
    Int(u16),
    Agg(Rc<Vec<(u64, LTy)>>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Debug)]
pub enum Target {
    Fn(usize),
    Ext(Rc<str>),
    Ind(LOp),
}

#[derive(Clone, Debug)]
pub enum L {
    Bin(BOp, u16, LOp, LOp),
    Icmp(Pred, u16, LOp, LOp),
    Zext(u16, u16, LOp),
    Sext(u16, u16, LOp),
    Trunc(u16, u16, LOp),
    Copy(LOp),
    Load(LTy, LOp),
    Store(LTy, LOp, LOp),
    Gep(LOp, i64, Vec<(LOp, u16, i64)>),
    Alloca(u64, u64),
    Call(Target, Vec<(LOp, u16)>, u16),
    Br(u32),
    CondBr(LOp, u32, u32),
    Switch(u16, LOp, u32, Rc<Vec<(u64, u32)>>),
    Ret(Option<LOp>),
    Unreachable,
    Select(LOp, LTy, bool, LOp, LOp),
    Extract(LOp, Vec<u32>),
    Insert(LOp, LOp, Vec<u32>),
    Rmw(String, LOp, u16, LOp),
    CmpXchg(LOp, u16, LOp, LOp),
    Unsupported(String),
}

pub struct LBlock {
    pub phis: Vec<(u32, Vec<(LOp, u32)>)>,
    pub ins: Vec<(Option<u32>, L)>,
}

pub struct LFunc {
    pub name: Rc<str>,
    pub nregs: usize,
    pub params: Vec<u32>,
    pub blocks: Vec<LBlock>,
}

#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub data: Vec<u8>,
    pub sym: Vec<u32>, // empty when fully concrete, else one E (or 0) per byte
    pub ro: bool,
}

pub struct Prog {
    types: Vec<HashMap<Rc<str>, Ty>>,
    pub fns: Vec<FnSrc>,
    pub lowered: Vec<Option<Rc<LFunc>>>,
    fn_by_name: HashMap<Rc<str>, usize>,
    fn_local: Vec<HashMap<Rc<str>, usize>>,
    glob: HashMap<Rc<str>, u64>,
    glob_local: Vec<HashMap<Rc<str>, u64>>,
    ext_addr: HashMap<Rc<str>, u64>,
    ext_names: Vec<Rc<str>>,
    pub objs: Vec<Obj>,
    pub next: u64,
}

pub const FN_BASE: u64 = 0x1_0000;
pub const EXT_BASE: u64 = 0x800_0000;
pub const GLOB_BASE: u64 = 0x1000_0000;

impl Prog {
    pub fn load(files: &[String]) -> Result<Prog, String> {
        let mut p = Prog {
            types: Vec::new(),
            fns: Vec::new(),
            lowered: Vec::new(),
            fn_by_name: HashMap::new(),
            fn_local: Vec::new(),
            glob: HashMap::new(),
            glob_local: Vec::new(),
            ext_addr: HashMap::new(),
            ext_names: Vec::new(),
            objs: Vec::new(),
            next: GLOB_BASE,
        };
        let mut globals: Vec<GlobalSrc> = Vec::new();
        let mut aliases = Vec::new();
        for (k, f) in files.iter().enumerate() {
            let text = std::fs::read_to_string(f).map_err(|e| format!("{}: {}", f, e))?;
            let m = parse_module(&text, k).map_err(|e| format!("{}: {}", f, e))?;
            p.types.push(m.types);
            p.fn_local.push(HashMap::new());
            p.glob_local.push(HashMap::new());
            for s in m.fns {
                let idx = p.fns.len();
                p.fn_local[k].insert(s.name.clone(), idx);
                if !s.internal {
                    p.fn_by_name.entry(s.name.clone()).or_insert(idx);
                }
                p.fns.push(s);
                p.lowered.push(None);
            }
            for (a, t) in m.aliases {
                aliases.push((k, a, t));
            }
            globals.extend(m.globals);
        }
        for (k, a, t) in aliases {
            if let Some(idx) = p.fn_local[k].get(&t).cloned() {
                p.fn_local[k].insert(a.clone(), idx);
                p.fn_by_name.entry(a).or_insert(idx);
            }
        }
        // lay out
        let mut addr = Vec::new();
        for g in &globals {
            if g.init.is_none() {
                addr.push(0);
                continue;
            }
            let size = p.size(&g.ty, g.module);
            let al = g.align.max(16);
            p.next = (p.next + al - 1) / al * al;
            let a = p.next;
            p.next += size.max(1) + 32;
            addr.push(a);
            p.glob_local[g.module].insert(g.name.clone(), a);
            p.glob.entry(g.name.clone()).or_insert(a);
        }
        for (g, a) in globals.iter().zip(addr) {
            if let Some(init) = &g.init {
                let size = p.size(&g.ty, g.module);
                let mut data = vec![0u8; size as usize];
                p.write_cst(&g.ty, init, &mut data, 0, g.module)
                    .map_err(|e| format!("global {}: {}", g.name, e))?;
                p.objs.push(Obj {
                    base: a,
                    data,
                    sym: Vec::new(),
                    ro: g.constant,
                });
            }
        }
        Ok(p)
    }

    pub fn find(&self, name: &str) -> Option<usize> {
        self.fn_by_name.get(name).cloned()
    }

    fn resolve_fn(&self, name: &str, module: usize) -> Option<usize> {
        if let Some(i) = self.fn_local[module].get(name) {
            return Some(*i);
        }
        self.fn_by_name.get(name).cloned()
    }

    pub fn fn_at(&self, addr: u64) -> Option<Target> {
        if addr >= EXT_BASE && addr < GLOB_BASE {
            let i = ((addr - EXT_BASE) / 16) as usize;
            return self.ext_names.get(i).map(|n| Target::Ext(n.clone()));
        }
        if addr >= FN_BASE && (addr - FN_BASE) % 16 == 0 {
            let i = ((addr - FN_BASE) / 16) as usize;
            if i < self.fns.len() {
                return Some(Target::Fn(i));
            }
        }
        None
    }

    fn global_addr(&mut self, name: &str, module: usize) -> u64 {
        if let Some(a) = self.glob_local[module].get(name) {
            return *a;
        }
        if let Some(i) = self.resolve_fn(name, module) {
            return FN_BASE + 16 * i as u64;
        }
        if let Some(a) = self.glob.get(name) {
            return *a;
        }
        if let Some(a) = self.ext_addr.get(name) {
            return *a;
        }
        let a = EXT_BASE + 16 * self.ext_names.len() as u64;
        let n: Rc<str> = name.into();
        self.ext_names.push(n.clone());
        self.ext_addr.insert(n, a);
        a
    }

    fn named(&self, n: &str, m: usize) -> Ty {
        self.types[m].get(n).cloned().unwrap_or(Ty::Struct(Rc::new(vec![]), false))
    }

    pub fn align(&self, t: &Ty, m: usize) -> u64 {
        match t {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                _ => 8,
            },
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Arr(_, e) => self.align(e, m),
            Ty::Vec(n, e) => (n * self.size(e, m)).next_power_of_two(),
            Ty::Struct(v, packed) => {
                if *packed {
                    1
                } else {
                    v.iter().map(|x| self.align(x, m)).max().unwrap_or(1)
                }
            }
            Ty::Named(n) => self.align(&self.named(n, m), m),
            _ => 1,
        }
    }
    pub fn store_size(&self, t: &Ty, m: usize) -> u64 {
        match t {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            _ => self.size(t, m),
        }
    }
    pub fn size(&self, t: &Ty, m: usize) -> u64 {
        match t {
            Ty::Int(w) => {
                let s = (*w as u64 + 7) / 8;
                let a = self.align(t, m);
                (s + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Arr(n, e) => n * self.size(e, m),
            Ty::Vec(n, e) => n * self.size(e, m),
            Ty::Struct(v, packed) => {
                let mut o = 0;
                for x in v.iter() {
                    if !*packed {
                        let a = self.align(x, m);
                        o = (o + a - 1) / a * a;
                    }
                    o += self.size(x, m);
                }
                if !*packed {
                    let a = self.align(t, m);
                    o = (o + a - 1) / a * a;
                }
                o
            }
            Ty::Named(n) => self.size(&self.named(n, m), m),
            _ => 0,
        }
    }
    fn field(&self, t: &Ty, i: usize, m: usize) -> (u64, Ty) {
        match t {
            Ty::Struct(v, packed) => {
                let mut o = 0;
                for (k, x) in v.iter().enumerate() {
                    if !*packed {
                        let a = self.align(x, m);
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return (o, x.clone());
                    }
                    o += self.size(x, m);
                }
                panic!("field")
            }
            Ty::Named(n) => self.field(&self.named(n, m), i, m),
            Ty::Arr(_, e) | Ty::Vec(_, e) => (self.size(e, m) * i as u64, (**e).clone()),
            _ => panic!("field of {:?}", t),
        }
    }

    fn write_cst(&mut self, t: &Ty, c: &Cst, out: &mut Vec<u8>, off: usize, m: usize) -> Result<(), String> {
        match c {
            Cst::Zero(_) | Cst::Undef(_) | Cst::Null => Ok(()),
            Cst::Bytes(b) => {
                out[off..off + b.len()].copy_from_slice(b);
                Ok(())
            }
            Cst::Agg(_, v) => {
                for (i, x) in v.iter().enumerate() {
                    let (o, ft) = self.field(t, i, m);
                    self.write_cst(&ft, x, out, off + o as usize, m)?;
                }
                Ok(())
            }
            _ => {
                let v = self.cst_int(c, m)?;
                let n = self.store_size(t, m) as usize;
                out[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]);
                Ok(())
            }
        }
    }

    pub fn cst_int(&mut self, c: &Cst, m: usize) -> Result<u128, String> {
        Ok(match c {
            Cst::Int(Ty::Int(w), v) => v & mask(*w),
            Cst::Int(_, v) => *v,
            Cst::Null | Cst::Undef(_) | Cst::Zero(_) => 0,
            Cst::Global(n) => self.global_addr(n, m) as u128,
            Cst::Gep(bt, base, idx) => {
                let mut a = self.cst_int(base, m)? as i64;
                let mut t = bt.clone();
                for (k, i) in idx.iter().enumerate() {
                    let iv = self.cst_sint(i, m)?;
                    if k == 0 {
                        a += iv * self.size(&t, m) as i64;
                    } else {
                        let is_struct = matches!(self.strip(&t, m), Ty::Struct(..));
                        if is_struct {
                            let (o, ft) = self.field(&t, iv as usize, m);
                            a += o as i64;
                            t = ft;
                        } else {
                            let (_, ft) = self.field(&t, 0, m);
                            a += iv * self.size(&ft, m) as i64;
                            t = ft;
                        }
                    }
                }
                a as u64 as u128
            }
            Cst::Cast(x, t) => {
                let v = self.cst_int(x, m)?;
                match t {
                    Ty::Int(w) => v & mask(*w),
                    _ => v,
                }
            }
            Cst::Bin(op, a, b) => {
                let x = self.cst_int(a, m)? as u64;
                let y = self.cst_int(b, m)? as u64;
                (match op.as_str() {
                    "add" => x.wrapping_add(y),
                    "sub" => x.wrapping_sub(y),
                    "mul" => x.wrapping_mul(y),
                    "and" => x & y,
                    "or" => x | y,
                    "xor" => x ^ y,
                    _ => return Err(format!("constexpr {}", op)),
                }) as u128
            }
            Cst::Bytes(_) | Cst::Agg(..) => return Err("aggregate where an integer was expected".into()),
        })
    }
    fn cst_sint(&mut self, c: &Cst, m: usize) -> Result<i64, String> {
        let v = self.cst_int(c, m)?;
        Ok(match c {
            Cst::Int(Ty::Int(w), _) => crate::expr::sext(v, *w) as i64,
            _ => v as i64,
        })
    }
    fn strip(&self, t: &Ty, m: usize) -> Ty {
        match t {
            Ty::Named(n) => {
                let x = self.named(n, m);
                self.strip(&x, m)
            }
            _ => t.clone(),
        }
    }

    fn lty(&self, t: &Ty, m: usize) -> Result<LTy, String> {
        Ok(match self.strip(t, m) {
            Ty::Int(w) => LTy::Int(w),
            Ty::Ptr => LTy::Int(64),
            Ty::Struct(v, _) => {
                let s = self.strip(t, m);
                let mut out = Vec::new();
                for i in 0..v.len() {
                    let (o, ft) = self.field(&s, i, m);
                    out.push((o, self.lty(&ft, m)?));
                }
                LTy::Agg(Rc::new(out))
            }
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                let es = self.size(&e, m);
                let l = self.lty(&e, m)?;
                LTy::Agg(Rc::new((0..n).map(|i| (i * es, l.clone())).collect()))
            }
            x => return Err(format!("type {:?}", x)),
        })
    }

    fn cval(&mut self, c: &Cst, t: &Ty, m: usize, cx: &mut crate::expr::Ctx) -> Result<Val, String> {
        match self.strip(t, m) {
            Ty::Int(w) if w > 64 => {
                let v = self.cst_int(c, m)?;
                Ok(Val::S(cx.c(w, v)))
            }
            Ty::Int(w) => Ok(Val::C((self.cst_int(c, m)? & mask(w)) as u64)),
            Ty::Ptr => Ok(Val::C(self.cst_int(c, m)? as u64)),
            s @ (Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..)) => {
                let n = match &s {
                    Ty::Struct(v, _) => v.len(),
                    Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
                    _ => 0,
                };
                let mut out = Vec::new();
                for i in 0..n {
                    let (_, ft) = self.field(&s, i, m);
                    out.push(match c {
                        Cst::Agg(_, v) => self.cval(&v[i].clone(), &ft, m, cx)?,
                        Cst::Bytes(b) => Val::C(b[i] as u64),
                        _ => self.cval(&Cst::Zero(ft.clone()), &ft, m, cx)?,
                    });
                }
                Ok(Val::A(Rc::new(out)))
            }
            x => Err(format!("constant of type {:?}", x)),
        }
    }

    fn lop(&mut self, o: &Opnd, t: &Ty, m: usize, cx: &mut crate::expr::Ctx) -> Result<LOp, String> {
        Ok(match o {
            Opnd::Reg(r) => LOp::R(*r),
            Opnd::C(c) => LOp::C(self.cval(c, t, m, cx)?),
        })
    }

    pub fn get(&mut self, idx: usize, cx: &mut crate::expr::Ctx) -> Result<Rc<LFunc>, String> {
        if let Some(f) = &self.lowered[idx] {
            return Ok(f.clone());
        }
        let f = parse_fn(&self.fns[idx])?;
        let m = f.module;
        let mut blocks = Vec::new();
        for b in &f.blocks {
            let mut lb = LBlock {
                phis: Vec::new(),
                ins: Vec::new(),
            };
            for (d, i) in &b.ins {
                if let I::Phi(t, v) = i {
                    let mut o = Vec::new();
                    for (x, l) in v {
                        o.push((self.lop(x, t, m, cx)?, *l));
                    }
                    lb.phis.push((d.unwrap(), o));
                    continue;
                }
                let l = match self.lower(i, m, cx) {
                    Ok(l) => l,
                    Err(e) => L::Unsupported(e),
                };
                lb.ins.push((*d, l));
            }
            blocks.push(lb);
        }
        let r = Rc::new(LFunc {
            name: f.name.clone(),
            nregs: f.nregs,
            params: f.params.clone(),
            blocks,
        });
        self.lowered[idx] = Some(r.clone());
        Ok(r)
    }

    fn width(&self, t: &Ty, m: usize) -> Result<u16, String> {
        match self.strip(t, m) {
            Ty::Int(w) => Ok(w),
            Ty::Ptr => Ok(64),
            x => Err(format!("scalar expected, got {:?}", x)),
        }
    }

    fn lower(&mut self, i: &I, m: usize, cx: &mut crate::expr::Ctx) -> Result<L, String> {
        Ok(match i {
            I::Bin(op, t, a, b) => {
                let w = self.width(t, m)?;
                let op = match op.as_str() {
                    "add" => BOp::Add,
                    "sub" => BOp::Sub,
                    "mul" => BOp::Mul,
                    "udiv" => BOp::UDiv,
                    "sdiv" => BOp::SDiv,
                    "urem" => BOp::URem,
                    "srem" => BOp::SRem,
                    "and" => BOp::And,
                    "or" => BOp::Or,
                    "xor" => BOp::Xor,
                    "shl" => BOp::Shl,
                    "lshr" => BOp::LShr,
                    "ashr" => BOp::AShr,
                    _ => return Err(op.clone()),
                };
                L::Bin(op, w, self.lop(a, t, m, cx)?, self.lop(b, t, m, cx)?)
            }
            I::Icmp(p, t, a, b) => {
                let w = self.width(t, m)?;
                let p = match p.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    _ => return Err(p.clone()),
                };
                L::Icmp(p, w, self.lop(a, t, m, cx)?, self.lop(b, t, m, cx)?)
            }
            I::Cast(k, ft, a, tt) => {
                let fw = self.width(ft, m)?;
                let tw = self.width(tt, m)?;
                let o = self.lop(a, ft, m, cx)?;
                match k.as_str() {
                    "zext" => L::Zext(fw, tw, o),
                    "sext" => L::Sext(fw, tw, o),
                    "trunc" => L::Trunc(fw, tw, o),
                    "ptrtoint" | "inttoptr" | "bitcast" => {
                        if fw == tw {
                            L::Copy(o)
                        } else if fw < tw {
                            L::Zext(fw, tw, o)
                        } else {
                            L::Trunc(fw, tw, o)
                        }
                    }
                    _ => return Err(k.clone()),
                }
            }
            I::Load(t, p) => L::Load(self.lty(t, m)?, self.lop(p, &Ty::Ptr, m, cx)?),
            I::Store(t, v, p) => L::Store(self.lty(t, m)?, self.lop(v, t, m, cx)?, self.lop(p, &Ty::Ptr, m, cx)?),
            I::Gep(bt, p, idx) => {
                let base = self.lop(p, &Ty::Ptr, m, cx)?;
                let mut off = 0i64;
                let mut terms = Vec::new();
                let mut t = bt.clone();
                for (k, (it, o)) in idx.iter().enumerate() {
                    let (stride, next) = if k == 0 {
                        (self.size(&t, m) as i64, t.clone())
                    } else {
                        let s = self.strip(&t, m);
                        if let Ty::Struct(..) = s {
                            let c = match o {
                                Opnd::C(c) => self.cst_int(c, m)? as usize,
                                _ => return Err("gep".into()),
                            };
                            let (fo, ft) = self.field(&s, c, m);
                            off += fo as i64;
                            t = ft;
                            continue;
                        }
                        let (_, ft) = self.field(&s, 0, m);
                        (self.size(&ft, m) as i64, ft)
                    };
                    match o {
                        Opnd::C(c) => off += self.cst_sint(c, m)? * stride,
                        Opnd::Reg(_) => {
                            let w = self.width(it, m)?;
                            terms.push((self.lop(o, it, m, cx)?, w, stride));
                        }
                    }
                    t = next;
                }
                L::Gep(base, off, terms)
            }
            I::Alloca(t, nt, n, al) => {
                let cnt = match n {
                    None => 1,
                    Some(Opnd::C(c)) => self.cst_int(c, m)? as u64,
                    _ => return Err("dynamic alloca".into()),
                };
                let _ = nt;
                L::Alloca(self.size(t, m) * cnt, *al)
            }
            I::Call(t, c, args) => {
                let mut v = Vec::new();
                for (at, a) in args {
                    let w = self.width(at, m).unwrap_or(0);
                    v.push((self.lop(a, at, m, cx)?, w));
                }
                let rw = match self.strip(t, m) {
                    Ty::Int(w) => w,
                    Ty::Ptr => 64,
                    _ => 0,
                };
                match c {
                    Callee::Name(n) => match self.resolve_fn(n, m) {
                        Some(i) => L::Call(Target::Fn(i), v, rw),
                        None => L::Call(Target::Ext(n.clone()), v, rw),
                    },
                    Callee::Reg(r) => L::Call(Target::Ind(LOp::R(*r)), v, rw),
                    Callee::Asm(s) => return Err(format!("asm {}", s)),
                }
            }
            I::Br(l) => L::Br(*l),
            I::CondBr(a, x, y) => L::CondBr(self.lop(a, &Ty::Int(1), m, cx)?, *x, *y),
            I::Switch(t, a, d, v) => {
                let w = self.width(t, m)?;
                if w > 64 {
                    return Err("wide switch".into());
                }
                L::Switch(
                    w,
                    self.lop(a, t, m, cx)?,
                    *d,
                    Rc::new(v.iter().map(|(k, l)| (*k as u64, *l)).collect()),
                )
            }
            I::Ret(t, o) => match o {
                None => L::Ret(None),
                Some(o) => L::Ret(Some(self.lop(o, t, m, cx)?)),
            },
            I::Unreachable => L::Unreachable,
            I::Select(c, t, a, b) => {
                let l = self.lty(t, m)?;
                let isp = matches!(self.strip(t, m), Ty::Ptr);
                L::Select(
                    self.lop(c, &Ty::Int(1), m, cx)?,
                    l,
                    isp,
                    self.lop(a, t, m, cx)?,
                    self.lop(b, t, m, cx)?,
                )
            }
            I::Extract(t, a, v) => L::Extract(self.lop(a, t, m, cx)?, v.clone()),
            I::Insert(t, a, t2, b, v) => L::Insert(self.lop(a, t, m, cx)?, self.lop(b, t2, m, cx)?, v.clone()),
            I::Freeze(t, a) => L::Copy(self.lop(a, t, m, cx)?),
            I::Rmw(k, p, t, v) => L::Rmw(k.clone(), self.lop(p, &Ty::Ptr, m, cx)?, self.width(t, m)?, self.lop(v, t, m, cx)?),
            I::CmpXchg(p, t, a, b) => L::CmpXchg(
                self.lop(p, &Ty::Ptr, m, cx)?,
                self.width(t, m)?,
                self.lop(a, t, m, cx)?,
                self.lop(b, t, m, cx)?,
            ),
            I::Phi(..) | I::Nop => unreachable!(),
            I::Unsupported(s) => L::Unsupported(s.clone()),
        })
    }
}

/// Legacy Rust symbol -> path without the hash.
pub fn demangle(s: &str) -> String {
    if !s.starts_with("_ZN") {
        return s.to_string();
    }
    let b = s.as_bytes();
    let mut i = 3;
    let mut parts: Vec<String> = Vec::new();
    while i < b.len() && b[i].is_ascii_digit() {
        let mut n = 0usize;
        while i < b.len() && b[i].is_ascii_digit() {
            n = n * 10 + (b[i] - b'0') as usize;
            i += 1;
        }
        if i + n > b.len() {
            break;
        }
        parts.push(s[i..i + n].to_string());
        i += n;
    }
    if let Some(l) = parts.last() {
        if l.len() == 17 && l.starts_with('h') {
            parts.pop();
        }
    }
    let r = parts.join("::");
    r.replace("$LT$", "<")
        .replace("$GT$", ">")
        .replace("$u20$", " ")
        .replace("$RF$", "&")
        .replace("$u5b$", "[")
        .replace("$u5d$", "]")
        .replace("$u7b$", "{")
        .replace("$u7d$", "}")
        .replace("$LP$", "(")
        .replace("$RP$", ")")
        .replace("$C$", ",")
        .replace("$BP$", "*")
        .replace("$u3b$", ";")
        .replace("$u27$", "'")
        .replace("..", "::")
}
