//! Path-forking symbolic executor.
//!
//! Every branch whose condition depends on symbolic input is decided by the solver: both sides
//! are followed when both are satisfiable together with the path condition.
use crate::expr::*;
use crate::prog::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<LFunc>,
    pub fidx: usize,
    pub regs: Vec<Val>,
    pub block: u32,
    pub ip: usize,
    pub ret: Option<u32>,
    pub allocas: Vec<u64>,
}

pub struct NameNode {
    name: Rc<str>,
    start: u32,
    len: u32,
    prev: Option<Rc<NameNode>>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: BTreeMap<u64, Rc<Obj>>,
    pub next: u64,
    pub cons: Rc<Vec<E>>,
    pub model: Rc<Vec<u8>>,
    pub bind: Rc<HashMap<u32, u8>>,
    pub nsym: u32,
    pub names: Option<Rc<NameNode>>,
    pub steps: u64,
    pub trace: u64,
}

pub fn fnv(mut h: u64, s: &str) -> u64 {
    if h == 0 {
        h = 0xcbf29ce484222325;
    }
    for b in s.bytes().chain([10u8]) {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub loc: String,
    pub stack: Vec<String>,
    pub witness: Vec<u8>,
    pub inputs: Vec<(String, u32, u32)>,
}

pub struct Limits {
    pub secs: f64,
    pub paths: u64,
    pub steps: u64,
    pub depth: usize,
    pub max_viol: usize,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub forks: u64,
    pub instrs: u64,
    pub assumed_away: u64,
    pub checks: u64,
    pub checks_const: u64,
    pub maxcons: usize,
    pub maxsym: u32,
    pub nfunc: u64,
}

pub struct Exec {
    pub cx: Ctx,
    pub so: Solver,
    pub pr: Prog,
    pub lim: Limits,
    pub st: Stats,
    pub params: Vec<u64>,
    /// one path per value of an address, instead of an if-then-else over the object
    pub pick_addr: bool,
    pub viol: Vec<Violation>,
    vkeys: HashMap<String, usize>,
    pub covers: BTreeMap<String, u64>,
    pub cover_w: BTreeMap<String, Vec<u8>>,
    /// some finished paths: inputs and the checks and covers passed, for comparison with native runs
    pub samples: Vec<(Vec<u8>, u64)>,
    pub check_msgs: BTreeMap<String, u64>,
    pub incomplete: BTreeSet<String>,
    pub funcs: HashSet<usize>,
    pub blocks: HashSet<(usize, u32)>,
    pub pruned: u64,
    work: Vec<State>,
    gidx: Vec<(u64, usize)>,
    t0: Instant,
}

enum Stop {
    Done,            // path finished
    Assumed,         // path contradicts an assumption
    Viol(String, String, String), // kind, msg, loc
    Limit(String),
}

type R<T> = Result<T, Stop>;

fn lim<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Limit(s.into()))
}

impl Exec {
    pub fn new(pr: Prog, lim: Limits, params: Vec<u64>, qms: u32) -> Exec {
        let mut gidx: Vec<(u64, usize)> = pr.objs.iter().enumerate().map(|(i, o)| (o.base, i)).collect();
        gidx.sort_unstable();
        Exec {
            cx: Ctx::new(),
            so: Solver::new(qms),
            pr,
            lim,
            st: Stats::default(),
            params,
            pick_addr: false,
            viol: Vec::new(),
            vkeys: HashMap::new(),
            covers: BTreeMap::new(),
            cover_w: BTreeMap::new(),
            samples: Vec::new(),
            check_msgs: BTreeMap::new(),
            incomplete: BTreeSet::new(),
            funcs: HashSet::new(),
            blocks: HashSet::new(),
            pruned: 0,
            work: Vec::new(),
            gidx,
            t0: Instant::now(),
        }
    }

    pub fn run(&mut self, entry: &str) -> Result<(), String> {
        let idx = self.pr.find(entry).ok_or_else(|| format!("no function {}", entry))?;
        let mut st = State {
            frames: Vec::new(),
            mem: BTreeMap::new(),
            next: (self.pr.next + 0xffff_ffff) & !0xffff_ffff,
            cons: Rc::new(Vec::new()),
            model: Rc::new(Vec::new()),
            bind: Rc::new(HashMap::new()),
            nsym: 0,
            names: None,
            steps: 0,
            trace: 0,
        };
        for o in &self.pr.objs {
            if !o.ro {
                st.mem.insert(o.base, Rc::new(o.clone()));
            }
        }
        if self.enter(&mut st, idx, Vec::new(), None).is_err() {
            return Err("cannot enter".into());
        }
        self.work.push(st);
        while let Some(mut s) = self.work.pop() {
            if self.t0.elapsed().as_secs_f64() > self.lim.secs {
                self.incomplete.insert(format!("time limit, {}+ states left", self.work.len() + 1));
                break;
            }
            if self.st.paths >= self.lim.paths {
                self.incomplete.insert(format!("path limit, {}+ states left", self.work.len() + 1));
                break;
            }
            let r = self.path(&mut s);
            self.st.maxcons = self.st.maxcons.max(s.cons.len());
            self.st.maxsym = self.st.maxsym.max(s.nsym);
            match r {
                Stop::Done => {
                    self.st.paths += 1;
                    let n = self.st.paths;
                    if n <= 4 || n.is_power_of_two() || n % 509 == 0 && self.samples.len() < 40 {
                        let mut w = (*s.model).clone();
                        w.resize(s.nsym as usize, 0);
                        self.samples.push((w, s.trace));
                    }
                }
                Stop::Assumed => self.st.assumed_away += 1,
                Stop::Viol(k, m, l) => {
                    self.st.paths += 1;
                    let model = s.model.clone();
                    self.report(&s, &model, k, m, l);
                }
                Stop::Limit(m) => {
                    self.st.paths += 1;
                    let at = s.frames.last().map(|f| demangle(&f.f.name)).unwrap_or_default();
                    self.incomplete.insert(format!("{} in {}", m, at));
                }
            }
            if self.viol.len() >= self.lim.max_viol {
                self.incomplete.insert("stopped at the violation limit".into());
                break;
            }
        }
        Ok(())
    }

    fn report(&mut self, s: &State, model: &Rc<Vec<u8>>, kind: String, msg: String, loc: String) {
        let mut stack = Vec::new();
        for f in s.frames.iter().rev().take(12) {
            stack.push(demangle(&f.f.name));
        }
        let key = format!("{}|{}|{}", kind, msg, if loc.is_empty() { stack.first().cloned().unwrap_or_default() } else { loc.clone() });
        let n = self.vkeys.entry(key).or_insert(0);
        *n += 1;
        if *n > 1 {
            return;
        }
        let mut w = (**model).clone();
        w.resize(s.nsym as usize, 0);
        let mut inputs = Vec::new();
        let mut p = s.names.clone();
        while let Some(x) = p {
            inputs.push((x.name.to_string(), x.start, x.len));
            p = x.prev.clone();
        }
        inputs.reverse();
        self.viol.push(Violation {
            kind,
            msg,
            loc,
            stack,
            witness: w,
            inputs,
        });
    }

    // ---------------------------------------------------------------- constraints

    fn norm(&self, e: E) -> Val {
        match self.cx.n(e) {
            N::C(v) if self.cx.w(e) <= 64 => Val::C(v as u64),
            _ => Val::S(e),
        }
    }
    fn e(&mut self, v: &Val, w: u16) -> E {
        match v {
            Val::C(c) => self.cx.c(w, *c as u128),
            Val::S(e) => *e,
            Val::A(_) => panic!("aggregate used as a scalar"),
        }
    }
    fn sub(&mut self, s: &State, e: E) -> E {
        if s.bind.is_empty() {
            return e;
        }
        let mut memo = HashMap::new();
        self.cx.subst(e, &s.bind, &mut memo)
    }
    fn add_con(&mut self, s: &mut State, c: E) {
        if self.cx.is_c(c) == Some(1) {
            return;
        }
        match self.cx.n(c) {
            N::B(Op::And, a, b) if self.cx.w(a) == 1 => {
                self.add_con(s, a);
                self.add_con(s, b);
                return;
            }
            N::B(Op::Xor, x, k) if self.cx.is_c(k) == Some(1) => match self.cx.n(x) {
                N::B(Op::Or, a, b) => {
                    let na = self.cx.not1(a);
                    let nb = self.cx.not1(b);
                    self.add_con(s, na);
                    self.add_con(s, nb);
                    return;
                }
                N::V(_) => {}
                _ => {}
            },
            N::B(Op::Eq, v, k) => {
                if let (N::V(i), Some(x)) = (self.cx.n(v), self.cx.is_c(k)) {
                    Rc::make_mut(&mut s.bind).insert(i, x as u8);
                }
            }
            _ => {}
        }
        Rc::make_mut(&mut s.cons).push(c);
    }
    fn slice(&mut self, s: &State, q: E) -> Vec<E> {
        let mut out = Vec::new();
        let mut todo: Vec<(E, Rc<Vec<u32>>)> = s.cons.iter().map(|c| (*c, self.cx.vars(*c))).collect();
        let mut vars: HashSet<u32> = self.cx.vars(q).iter().cloned().collect();
        loop {
            let mut changed = false;
            let mut rest = Vec::with_capacity(todo.len());
            for (c, vs) in todo {
                if vs.iter().any(|v| vars.contains(v)) {
                    vars.extend(vs.iter());
                    out.push(c);
                    changed = true;
                } else {
                    rest.push((c, vs));
                }
            }
            todo = rest;
            if !changed {
                break;
            }
        }
        // split a conjunctive query
        let mut st = vec![q];
        while let Some(x) = st.pop() {
            match self.cx.n(x) {
                N::B(Op::And, a, b) if self.cx.w(x) == 1 => {
                    st.push(a);
                    st.push(b);
                }
                _ => out.push(x),
            }
        }
        out.sort_unstable();
        out.dedup();
        out
    }
    /// Some(model) when `q` is satisfiable with the path condition.
    fn solve(&mut self, s: &State, q: E) -> R<Option<Rc<Vec<u8>>>> {
        match self.cx.is_c(q) {
            Some(0) => return Ok(None),
            Some(_) => return Ok(Some(s.model.clone())),
            None => {}
        }
        let v = self.slice(s, q);
        match self.so.check(&mut self.cx, v) {
            Res::Unsat => Ok(None),
            Res::Sat(m) => {
                let mut n = (*s.model).clone();
                for (i, b) in m {
                    if n.len() <= i as usize {
                        n.resize(i as usize + 1, 0);
                    }
                    n[i as usize] = b;
                }
                Ok(Some(Rc::new(n)))
            }
            Res::Unknown => lim("solver gave no verdict"),
        }
    }
    /// Decides a condition; when both sides are possible the other one is queued.
    fn branch(&mut self, s: &mut State, c: E) -> R<bool> {
        let c = self.sub(s, c);
        if let Some(v) = self.cx.is_c(c) {
            return Ok(v == 1);
        }
        let here = self.cx.eval(c, &s.model) == 1;
        let n = self.cx.not1(c);
        let (yes, no) = if here { (c, n) } else { (n, c) };
        match self.solve(s, no)? {
            None => {}
            Some(m) => {
                let mut o = s.clone();
                o.model = m;
                self.add_con(&mut o, no);
                self.work.push(o);
                self.st.forks += 1;
                self.add_con(s, yes);
            }
        }
        Ok(here)
    }
    /// Fixes an expression to one value on this path, queueing the others.
    fn pick(&mut self, s: &mut State, e: E) -> R<u64> {
        let e = self.sub(s, e);
        if let Some(v) = self.cx.is_c(e) {
            return Ok(v as u64);
        }
        let v = self.cx.eval(e, &s.model);
        let w = self.cx.w(e);
        let k = self.cx.c(w, v);
        let eq = self.cx.eq(e, k);
        let ne = self.cx.not1(eq);
        if let Some(m) = self.solve(s, ne)? {
            let mut o = s.clone();
            o.model = m;
            self.add_con(&mut o, ne);
            self.work.push(o);
            self.st.forks += 1;
        }
        self.add_con(s, eq);
        Ok(v as u64)
    }
    fn pickv(&mut self, s: &mut State, v: &Val) -> R<u64> {
        match v {
            Val::C(c) => Ok(*c),
            Val::S(e) => self.pick(s, *e),
            Val::A(_) => lim("aggregate as scalar"),
        }
    }

    // ---------------------------------------------------------------- memory

    fn obj<'a>(pr: &'a Prog, gidx: &[(u64, usize)], s: &'a State, a: u64) -> Option<&'a Obj> {
        if a < pr.next {
            let i = gidx.partition_point(|x| x.0 <= a);
            if i == 0 {
                return None;
            }
            let o = &pr.objs[gidx[i - 1].1];
            if a > o.base + o.data.len() as u64 {
                return None;
            }
            if o.ro {
                return Some(o);
            }
            return s.mem.get(&o.base).map(|x| &**x);
        }
        let (_, o) = s.mem.range(..=a).next_back()?;
        if a <= o.base + o.data.len() as u64 {
            Some(o)
        } else {
            None
        }
    }
    fn rd<'a>(&'a self, s: &'a State, a: u64, n: u64) -> R<(&'a Obj, usize)> {
        match Self::obj(&self.pr, &self.gidx, s, a) {
            Some(o) if a + n <= o.base + o.data.len() as u64 => Ok((o, (a - o.base) as usize)),
            Some(o) => Err(Stop::Viol(
                "memory".into(),
                format!("access of {} bytes at offset {} of a {}-byte object", n, a - o.base, o.data.len()),
                String::new(),
            )),
            None => Err(Stop::Viol("memory".into(), format!("access of {} bytes outside any live object", n), String::new())),
        }
    }
    fn wr<'a>(&mut self, s: &'a mut State, a: u64, n: u64) -> R<(&'a mut Obj, usize)> {
        let (base, off) = {
            let (o, off) = self.rd(s, a, n)?;
            if o.ro {
                return Err(Stop::Viol("memory".into(), "write to a constant".into(), String::new()));
            }
            (o.base, off)
        };
        let o = s.mem.get_mut(&base).unwrap();
        Ok((Rc::make_mut(o), off))
    }
    fn new_obj(&mut self, s: &mut State, n: u64, al: u64) -> u64 {
        let al = al.max(16);
        s.next = (s.next + al - 1) / al * al;
        let a = s.next;
        s.next += n.max(1) + 64;
        s.mem.insert(
            a,
            Rc::new(Obj {
                base: a,
                data: vec![0; n as usize],
                sym: Vec::new(),
                ro: false,
            }),
        );
        a
    }
    fn byte(&mut self, o_data: u8, o_sym: u32) -> E {
        if o_sym == 0 {
            self.cx.c(8, o_data as u128)
        } else {
            o_sym
        }
    }
    fn load_int(&mut self, s: &State, a: u64, w: u16) -> R<Val> {
        let n = (w as u64 + 7) / 8;
        let (d, sy) = {
            let (o, off) = self.rd(s, a, n)?;
            let mut d = [0u8; 16];
            d[..n as usize].copy_from_slice(&o.data[off..off + n as usize]);
            let mut sy = [0u32; 16];
            if !o.sym.is_empty() {
                sy[..n as usize].copy_from_slice(&o.sym[off..off + n as usize]);
            }
            (d, sy)
        };
        let any = sy[..n as usize].iter().any(|x| *x != 0);
        if !any {
            let v = u128::from_le_bytes(d) & mask(w);
            return Ok(if w <= 64 { Val::C(v as u64) } else { Val::S(self.cx.c(w, v)) });
        }
        let mut e = self.byte(d[n as usize - 1], sy[n as usize - 1]);
        for i in (0..n as usize - 1).rev() {
            let b = self.byte(d[i], sy[i]);
            e = self.cx.concat(e, b);
        }
        let e = if self.cx.w(e) != w { self.cx.ext(e, 0, w) } else { e };
        Ok(self.norm(e))
    }
    fn load(&mut self, s: &State, a: u64, t: &LTy) -> R<Val> {
        match t {
            LTy::Int(w) => self.load_int(s, a, *w),
            LTy::Agg(v) => {
                let mut out = Vec::with_capacity(v.len());
                for (o, x) in v.iter() {
                    out.push(self.load(s, a + o, x)?);
                }
                Ok(Val::A(Rc::new(out)))
            }
        }
    }
    fn store(&mut self, s: &mut State, a: u64, t: &LTy, v: &Val) -> R<()> {
        match t {
            LTy::Int(w) => {
                let n = (*w as u64 + 7) / 8;
                match v {
                    Val::C(c) => {
                        let (o, off) = self.wr(s, a, n)?;
                        let c = (*c as u128) & mask(*w);
                        o.data[off..off + n as usize].copy_from_slice(&c.to_le_bytes()[..n as usize]);
                        if !o.sym.is_empty() {
                            for x in &mut o.sym[off..off + n as usize] {
                                *x = 0;
                            }
                        }
                    }
                    Val::S(e) => {
                        let full = self.cx.zext(*e, (n * 8) as u16);
                        let mut bs = [(0u8, 0u32); 16];
                        for i in 0..n as usize {
                            let b = self.cx.ext(full, (i * 8) as u16, 8);
                            bs[i] = match self.cx.is_c(b) {
                                Some(v) => (v as u8, 0),
                                None => (0, b),
                            };
                        }
                        let (o, off) = self.wr(s, a, n)?;
                        if o.sym.is_empty() {
                            o.sym = vec![0; o.data.len()];
                        }
                        for i in 0..n as usize {
                            o.data[off + i] = bs[i].0;
                            o.sym[off + i] = bs[i].1;
                        }
                    }
                    Val::A(_) => return lim("store shape"),
                }
                Ok(())
            }
            LTy::Agg(ts) => {
                if let Val::A(vs) = v {
                    for ((o, x), y) in ts.iter().zip(vs.iter()) {
                        self.store(s, a + o, x, y)?;
                    }
                    Ok(())
                } else {
                    lim("store shape")
                }
            }
        }
    }
    fn memcpy(&mut self, s: &mut State, d: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (data, sym) = {
            let (o, off) = self.rd(s, src, n)?;
            let data = o.data[off..off + n as usize].to_vec();
            let sym = if o.sym.is_empty() { Vec::new() } else { o.sym[off..off + n as usize].to_vec() };
            (data, sym)
        };
        let any = sym.iter().any(|x| *x != 0);
        let (o, off) = self.wr(s, d, n)?;
        o.data[off..off + n as usize].copy_from_slice(&data);
        if any {
            if o.sym.is_empty() {
                o.sym = vec![0; o.data.len()];
            }
            o.sym[off..off + n as usize].copy_from_slice(&sym);
        } else if !o.sym.is_empty() {
            for x in &mut o.sym[off..off + n as usize] {
                *x = 0;
            }
        }
        Ok(())
    }
    fn memset(&mut self, s: &mut State, d: u64, v: &Val, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let v = v.clone();
        let (o, off) = self.wr(s, d, n)?;
        let (b, e) = match v {
            Val::C(c) => (c as u8, 0),
            Val::S(e) => (0, e),
            _ => return lim("memset"),
        };
        if e != 0 && o.sym.is_empty() {
            o.sym = vec![0; o.data.len()];
        }
        for i in off..off + n as usize {
            o.data[i] = b;
        }
        if !o.sym.is_empty() {
            for i in off..off + n as usize {
                o.sym[i] = e;
            }
        }
        Ok(())
    }
    fn bytes_at(&mut self, s: &State, a: u64, n: u64) -> R<Vec<E>> {
        if n == 0 {
            return Ok(Vec::new());
        }
        let (d, sy) = {
            let (o, off) = self.rd(s, a, n)?;
            let sy = if o.sym.is_empty() { vec![0; n as usize] } else { o.sym[off..off + n as usize].to_vec() };
            (o.data[off..off + n as usize].to_vec(), sy)
        };
        let mut out = Vec::with_capacity(n as usize);
        for i in 0..n as usize {
            out.push(self.byte(d[i], sy[i]));
        }
        Ok(out)
    }
    fn cstr(&mut self, s: &State, a: u64, n: u64) -> R<String> {
        let v = self.bytes_at(s, a, n)?;
        let b: Vec<u8> = v.iter().map(|e| self.cx.is_c(*e).unwrap_or(b'?' as u128) as u8).collect();
        Ok(String::from_utf8_lossy(&b).to_string())
    }

    /// Load through a symbolic address: stays inside one object on this path and becomes an if-then-else.
    fn load_sym(&mut self, s: &mut State, ae: E, t: &LTy) -> R<Val> {
        let ae = self.sub(s, ae);
        if let Some(a) = self.cx.is_c(ae) {
            return self.load(s, a as u64, t);
        }
        let w = match t {
            LTy::Int(w) if !self.pick_addr => *w,
            _ => {
                let a = self.pick(s, ae)?;
                return self.load(s, a, t);
            }
        };
        let n = (w as u64 + 7) / 8;
        let a0 = self.cx.eval(ae, &s.model) as u64;
        let (base, len) = match Self::obj(&self.pr, &self.gidx, s, a0) {
            Some(o) => (o.base, o.data.len() as u64),
            None => {
                let a = self.pick(s, ae)?;
                return self.load(s, a, t);
            }
        };
        if a0 + n > base + len {
            let a = self.pick(s, ae)?;
            return self.load(s, a, t);
        }
        // inside this object, or somewhere else (followed separately)
        let b = self.cx.c(64, base as u128);
        let off = self.cx.bin(Op::Sub, ae, b);
        let hi = self.cx.c(64, (len - n + 1) as u128);
        let inside = self.cx.bin(Op::Ult, off, hi);
        let ni = self.cx.not1(inside);
        if let Some(m) = self.solve(s, ni)? {
            let mut o = s.clone();
            o.model = m;
            self.add_con(&mut o, ni);
            self.work.push(o);
            self.st.forks += 1;
            self.add_con(s, inside);
        }
        let vars = self.cx.vars(off);
        let mut offs: Vec<u64> = Vec::new();
        if vars.len() == 1 {
            let i = vars[0] as usize;
            let mut m = (*s.model).clone();
            if m.len() <= i {
                m.resize(i + 1, 0);
            }
            for b in 0..=255u8 {
                m[i] = b;
                let o = self.cx.eval(off, &m) as u64;
                if o < len - n + 1 {
                    offs.push(o);
                }
            }
            offs.sort_unstable();
            offs.dedup();
        } else {
            // enumerate by the solver, up to 48 values
            let mut tmp = s.clone();
            loop {
                let v = self.cx.eval(off, &tmp.model);
                offs.push(v as u64);
                if offs.len() > 48 {
                    break;
                }
                let k = self.cx.c(64, v);
                let eq = self.cx.eq(off, k);
                let ne = self.cx.not1(eq);
                match self.solve(&tmp, ne)? {
                    None => break,
                    Some(m) => {
                        tmp.model = m;
                        self.add_con(&mut tmp, ne);
                    }
                }
            }
            if offs.len() > 48 {
                let a = self.pick(s, ae)?;
                return self.load(s, a, t);
            }
        }
        let mut acc: Option<E> = None;
        for o in offs {
            let v = self.load_int(s, base + o, w)?;
            let v = self.e(&v, w);
            acc = Some(match acc {
                None => v,
                Some(x) => {
                    let k = self.cx.c(64, o as u128);
                    let c = self.cx.eq(off, k);
                    self.cx.ite(c, v, x)
                }
            });
        }
        match acc {
            Some(x) => Ok(self.norm(x)),
            None => lim("no address"),
        }
    }

    // ---------------------------------------------------------------- control

    fn enter(&mut self, s: &mut State, fidx: usize, args: Vec<Val>, ret: Option<u32>) -> R<()> {
        if s.frames.len() >= self.lim.depth {
            let f = demangle(&self.pr.fns[fidx].name);
            return Err(Stop::Viol(
                "recursion".into(),
                format!("call depth reaches {}", self.lim.depth),
                f,
            ));
        }
        let f = match self.pr.get(fidx, &mut self.cx) {
            Ok(f) => f,
            Err(e) => return lim(format!("cannot read {}: {}", self.pr.fns[fidx].name, e)),
        };
        self.funcs.insert(fidx);
        self.blocks.insert((fidx, 0));
        let mut regs = vec![Val::C(0); f.nregs];
        for (p, a) in f.params.iter().zip(args) {
            regs[*p as usize] = a;
        }
        s.frames.push(Rc::new(Frame {
            f,
            fidx,
            regs,
            block: 0,
            ip: 0,
            ret,
            allocas: Vec::new(),
        }));
        Ok(())
    }

    fn jump(&mut self, s: &mut State, to: u32) {
        let fr = Rc::make_mut(s.frames.last_mut().unwrap());
        let from = fr.block;
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (d, v) in &b.phis {
                let mut got = Val::C(0);
                for (o, l) in v {
                    if *l == from {
                        got = match o {
                            LOp::R(r) => fr.regs[*r as usize].clone(),
                            LOp::C(c) => c.clone(),
                        };
                        break;
                    }
                }
                vals.push((*d, got));
            }
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        fr.block = to;
        fr.ip = 0;
        self.blocks.insert((fr.fidx, to));
    }

    fn path(&mut self, s: &mut State) -> Stop {
        let mut n = 0u32;
        loop {
            n += 1;
            if n & 0xfff == 0 && self.t0.elapsed().as_secs_f64() > self.lim.secs {
                return Stop::Limit("time limit".into());
            }
            s.steps += 1;
            self.st.instrs += 1;
            if s.steps > self.lim.steps {
                return Stop::Limit("step limit".into());
            }
            match self.step(s) {
                Ok(()) => {}
                Err(e) => return e,
            }
        }
    }

    fn opv(&self, s: &State, o: &LOp) -> Val {
        match o {
            LOp::R(r) => s.frames.last().unwrap().regs[*r as usize].clone(),
            LOp::C(c) => c.clone(),
        }
    }

    fn set(&self, s: &mut State, d: Option<u32>, v: Val) {
        let fr = Rc::make_mut(s.frames.last_mut().unwrap());
        if let Some(d) = d {
            fr.regs[d as usize] = v;
        }
        fr.ip += 1;
    }

    fn binop(&mut self, op: BOp, w: u16, a: &Val, b: &Val) -> R<Val> {
        let eop = match op {
            BOp::Add => Op::Add,
            BOp::Sub => Op::Sub,
            BOp::Mul => Op::Mul,
            BOp::UDiv => Op::UDiv,
            BOp::SDiv => Op::SDiv,
            BOp::URem => Op::URem,
            BOp::SRem => Op::SRem,
            BOp::And => Op::And,
            BOp::Or => Op::Or,
            BOp::Xor => Op::Xor,
            BOp::Shl => Op::Shl,
            BOp::LShr => Op::LShr,
            BOp::AShr => Op::AShr,
        };
        if let (Val::C(x), Val::C(y)) = (a, b) {
            return match fold(eop, w, *x as u128, *y as u128) {
                Some(v) => Ok(Val::C(v as u64)),
                None => Err(Stop::Viol("ub".into(), "division by zero".into(), String::new())),
            };
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let r = self.cx.bin(eop, x, y);
        Ok(self.norm(r))
    }

    fn cmp(&mut self, p: Pred, w: u16, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (sext(x as u128, w), sext(y as u128, w));
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx < sy,
                Pred::Sle => sx <= sy,
                Pred::Sgt => sx > sy,
                Pred::Sge => sx >= sy,
            };
            return Val::C(r as u64);
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let cx = &mut self.cx;
        let r = match p {
            Pred::Eq => cx.bin(Op::Eq, x, y),
            Pred::Ne => {
                let t = cx.bin(Op::Eq, x, y);
                cx.not1(t)
            }
            Pred::Ult => cx.bin(Op::Ult, x, y),
            Pred::Ugt => cx.bin(Op::Ult, y, x),
            Pred::Ule => {
                let t = cx.bin(Op::Ult, y, x);
                cx.not1(t)
            }
            Pred::Uge => {
                let t = cx.bin(Op::Ult, x, y);
                cx.not1(t)
            }
            Pred::Slt => cx.bin(Op::Slt, x, y),
            Pred::Sgt => cx.bin(Op::Slt, y, x),
            Pred::Sle => {
                let t = cx.bin(Op::Slt, y, x);
                cx.not1(t)
            }
            Pred::Sge => {
                let t = cx.bin(Op::Slt, x, y);
                cx.not1(t)
            }
        };
        self.norm(r)
    }

    fn merge(&mut self, c: E, a: &Val, b: &Val, t: &LTy) -> Val {
        match t {
            LTy::Int(w) => {
                let x = self.e(a, *w);
                let y = self.e(b, *w);
                let r = self.cx.ite(c, x, y);
                self.norm(r)
            }
            LTy::Agg(ts) => {
                if let (Val::A(p), Val::A(q)) = (a, b) {
                    let v = ts.iter().enumerate().map(|(i, (_, tt))| self.merge(c, &p[i].clone(), &q[i].clone(), tt)).collect();
                    Val::A(Rc::new(v))
                } else {
                    a.clone()
                }
            }
        }
    }

    fn step(&mut self, s: &mut State) -> R<()> {
        let (f, b, ip) = {
            let fr = s.frames.last().unwrap();
            (fr.f.clone(), fr.block, fr.ip)
        };
        let (d, ins) = &f.blocks[b as usize].ins[ip];
        let d = *d;
        match ins {
            L::Bin(op, w, a, b) => {
                let x = self.opv(s, a);
                let y = self.opv(s, b);
                if matches!(op, BOp::UDiv | BOp::URem | BOp::SDiv | BOp::SRem) {
                    if let Val::S(e) = &y {
                        // a zero divisor would be undefined behaviour
                        let z = self.cx.c(*w, 0);
                        let c = self.cx.eq(*e, z);
                        if self.branch(s, c)? {
                            return Err(Stop::Viol("ub".into(), "division by zero".into(), String::new()));
                        }
                    }
                }
                let r = self.binop(*op, *w, &x, &y)?;
                self.set(s, d, r);
            }
            L::Icmp(p, w, a, b) => {
                let x = self.opv(s, a);
                let y = self.opv(s, b);
                let r = self.cmp(*p, *w, &x, &y);
                self.set(s, d, r);
            }
            L::Zext(_, tw, a) => {
                let x = self.opv(s, a);
                let r = match x {
                    Val::C(c) if *tw <= 64 => Val::C(c),
                    Val::C(c) => Val::S(self.cx.c(*tw, c as u128)),
                    Val::S(e) => {
                        let r = self.cx.zext(e, *tw);
                        self.norm(r)
                    }
                    _ => return lim("zext"),
                };
                self.set(s, d, r);
            }
            L::Sext(fw, tw, a) => {
                let x = self.opv(s, a);
                let e = self.e(&x, *fw);
                let r = self.cx.sextend(e, *tw);
                let r = self.norm(r);
                self.set(s, d, r);
            }
            L::Trunc(fw, tw, a) => {
                let x = self.opv(s, a);
                let r = match x {
                    Val::C(c) => Val::C((c as u128 & mask(*tw)) as u64),
                    Val::S(e) => {
                        debug_assert_eq!(self.cx.w(e), *fw);
                        let r = self.cx.ext(e, 0, *tw);
                        self.norm(r)
                    }
                    _ => return lim("trunc"),
                };
                self.set(s, d, r);
            }
            L::Copy(a) => {
                let x = self.opv(s, a);
                self.set(s, d, x);
            }
            L::Load(t, p) => {
                let a = self.opv(s, p);
                let v = match a {
                    Val::C(a) => self.load(s, a, t)?,
                    Val::S(e) => self.load_sym(s, e, t)?,
                    _ => return lim("load"),
                };
                self.set(s, d, v);
            }
            L::Store(t, v, p) => {
                let a = self.opv(s, p);
                let v = self.opv(s, v);
                let a = self.pickv(s, &a)?;
                self.store(s, a, t, &v)?;
                self.set(s, None, Val::C(0));
            }
            L::Gep(base, off, terms) => {
                let b = self.opv(s, base);
                let mut conc = *off as u64;
                let mut sy: Option<E> = None;
                match b {
                    Val::C(c) => conc = conc.wrapping_add(c),
                    Val::S(e) => sy = Some(e),
                    _ => return lim("gep"),
                }
                for (o, w, stride) in terms {
                    match self.opv(s, o) {
                        Val::C(c) => {
                            let i = sext(c as u128, *w) as i64;
                            conc = conc.wrapping_add(i.wrapping_mul(*stride) as u64);
                        }
                        Val::S(e) => {
                            let x = self.cx.sextend(e, 64);
                            let k = self.cx.c(64, *stride as u64 as u128);
                            let m = self.cx.bin(Op::Mul, x, k);
                            sy = Some(match sy {
                                None => m,
                                Some(y) => self.cx.bin(Op::Add, y, m),
                            });
                        }
                        _ => return lim("gep"),
                    }
                }
                let r = match sy {
                    None => Val::C(conc),
                    Some(e) => {
                        let k = self.cx.c(64, conc as u128);
                        let r = self.cx.bin(Op::Add, e, k);
                        self.norm(r)
                    }
                };
                self.set(s, d, r);
            }
            L::Alloca(n, al) => {
                let a = self.new_obj(s, *n, *al);
                let fr = Rc::make_mut(s.frames.last_mut().unwrap());
                fr.allocas.push(a);
                self.set(s, d, Val::C(a));
            }
            L::Br(l) => self.jump(s, *l),
            L::CondBr(c, x, y) => {
                let t = match self.opv(s, c) {
                    Val::C(c) => c & 1 == 1,
                    Val::S(e) => self.branch(s, e)?,
                    _ => return lim("br"),
                };
                self.jump(s, if t { *x } else { *y });
            }
            L::Switch(w, v, dflt, cases) => {
                match self.opv(s, v) {
                    Val::C(c) => {
                        let to = cases.iter().find(|x| x.0 == c).map(|x| x.1).unwrap_or(*dflt);
                        self.jump(s, to);
                    }
                    Val::S(e) => {
                        let e = self.sub(s, e);
                        if let Some(c) = self.cx.is_c(e) {
                            let to = cases.iter().find(|x| x.0 == c as u64).map(|x| x.1).unwrap_or(*dflt);
                            self.jump(s, to);
                            return Ok(());
                        }
                        // targets with their conditions
                        let mut tg: Vec<(u32, E)> = Vec::new();
                        let mut none = self.cx.t();
                        for (k, l) in cases.iter() {
                            let kk = self.cx.c(*w, *k as u128);
                            let c = self.cx.eq(e, kk);
                            let nc = self.cx.not1(c);
                            none = self.cx.bin(Op::And, none, nc);
                            match tg.iter_mut().find(|x| x.0 == *l) {
                                Some(x) => x.1 = self.cx.bin(Op::Or, x.1, c),
                                None => tg.push((*l, c)),
                            }
                        }
                        match tg.iter_mut().find(|x| x.0 == *dflt) {
                            Some(x) => x.1 = self.cx.bin(Op::Or, x.1, none),
                            None => tg.push((*dflt, none)),
                        }
                        let v = self.cx.eval(e, &s.model) as u64;
                        let here = cases.iter().find(|x| x.0 == v).map(|x| x.1).unwrap_or(*dflt);
                        let mut own = None;
                        let mut any = false;
                        for (l, c) in tg {
                            if l == here {
                                own = Some(c);
                                continue;
                            }
                            if let Some(m) = self.solve(s, c)? {
                                any = true;
                                let mut o = s.clone();
                                o.model = m;
                                self.add_con(&mut o, c);
                                self.jump(&mut o, l);
                                self.work.push(o);
                                self.st.forks += 1;
                            }
                        }
                        if any {
                            self.add_con(s, own.unwrap());
                        }
                        self.jump(s, here);
                    }
                    _ => return lim("switch"),
                }
            }
            L::Ret(v) => {
                let v = v.as_ref().map(|x| self.opv(s, x));
                let fr = s.frames.pop().unwrap();
                for a in &fr.allocas {
                    s.mem.remove(a);
                }
                if s.frames.is_empty() {
                    return Err(Stop::Done);
                }
                let up = Rc::make_mut(s.frames.last_mut().unwrap());
                if let (Some(r), Some(v)) = (fr.ret, v) {
                    up.regs[r as usize] = v;
                }
            }
            L::Unreachable => {
                return Err(Stop::Viol("ub".into(), "unreachable code reached".into(), String::new()));
            }
            L::Select(c, t, isp, a, b) => {
                let x = self.opv(s, a);
                let y = self.opv(s, b);
                let r = match self.opv(s, c) {
                    Val::C(c) => {
                        if c & 1 == 1 {
                            x
                        } else {
                            y
                        }
                    }
                    Val::S(e) => {
                        let e = self.sub(s, e);
                        let same = matches!((&x, &y), (Val::C(p), Val::C(q)) if p == q);
                        if same {
                            x
                        } else if *isp {
                            if self.branch(s, e)? {
                                x
                            } else {
                                y
                            }
                        } else {
                            self.merge(e, &x, &y, t)
                        }
                    }
                    _ => return lim("select"),
                };
                self.set(s, d, r);
            }
            L::Extract(a, idx) => {
                let mut v = self.opv(s, a);
                for i in idx {
                    v = match &v {
                        Val::A(x) => x[*i as usize].clone(),
                        _ => return lim("extractvalue of a scalar"),
                    };
                }
                self.set(s, d, v);
            }
            L::Insert(a, b, idx) => {
                let v = self.opv(s, a);
                let x = self.opv(s, b);
                fn put(v: &Val, idx: &[u32], x: Val) -> Val {
                    if idx.is_empty() {
                        return x;
                    }
                    match v {
                        Val::A(r) => {
                            let mut n = (**r).clone();
                            n[idx[0] as usize] = put(&r[idx[0] as usize], &idx[1..], x);
                            Val::A(Rc::new(n))
                        }
                        _ => v.clone(),
                    }
                }
                let r = put(&v, idx, x);
                self.set(s, d, r);
            }
            L::Rmw(k, p, w, v) => {
                let a = self.opv(s, p);
                let a = self.pickv(s, &a)?;
                let x = self.opv(s, v);
                let old = self.load_int(s, a, *w)?;
                let n = match k.as_str() {
                    "xchg" => x,
                    "add" => self.binop(BOp::Add, *w, &old, &x)?,
                    "sub" => self.binop(BOp::Sub, *w, &old, &x)?,
                    "and" => self.binop(BOp::And, *w, &old, &x)?,
                    "or" => self.binop(BOp::Or, *w, &old, &x)?,
                    "xor" => self.binop(BOp::Xor, *w, &old, &x)?,
                    _ => return lim(format!("atomicrmw {}", k)),
                };
                self.store(s, a, &LTy::Int(*w), &n)?;
                self.set(s, d, old);
            }
            L::CmpXchg(p, w, a, b) => {
                let ad = self.opv(s, p);
                let ad = self.pickv(s, &ad)?;
                let x = self.opv(s, a);
                let y = self.opv(s, b);
                let old = self.load_int(s, ad, *w)?;
                let c = self.cmp(Pred::Eq, *w, &old, &x);
                let t = match c {
                    Val::C(c) => c == 1,
                    Val::S(e) => self.branch(s, e)?,
                    _ => return lim("cmpxchg"),
                };
                if t {
                    self.store(s, ad, &LTy::Int(*w), &y)?;
                }
                self.set(s, d, Val::A(Rc::new(vec![old, Val::C(t as u64)])));
            }
            L::Call(t, args, rw) => {
                let t = match t {
                    Target::Ind(o) => {
                        let a = self.opv(s, o);
                        let a = self.pickv(s, &a)?;
                        match self.pr.fn_at(a) {
                            Some(t) => t,
                            None => return Err(Stop::Viol("memory".into(), "call through an invalid pointer".into(), String::new())),
                        }
                    }
                    x => x.clone(),
                };
                match t {
                    Target::Fn(i) => {
                        let v = args.iter().map(|(a, _)| self.opv(s, a)).collect();
                        // return continues after the call
                        let name = self.pr.fns[i].name.clone();
                        if self.is_panic(&name) {
                            let loc = self.panic_loc(s, &args.iter().map(|(a, _)| self.opv(s, a)).collect::<Vec<_>>());
                            return Err(Stop::Viol("panic".into(), short(&name), loc));
                        }
                        self.st.nfunc += 1;
                        Rc::make_mut(s.frames.last_mut().unwrap()).ip += 1;
                        self.enter(s, i, v, d)?;
                    }
                    Target::Ext(n) => {
                        let v: Vec<(Val, u16)> = args.iter().map(|(a, w)| (self.opv(s, a), *w)).collect();
                        let r = self.ext(s, &n, v, *rw)?;
                        self.set(s, d, r);
                    }
                    Target::Ind(_) => unreachable!(),
                }
            }
            L::Unsupported(m) => return lim(format!("unsupported: {}", m)),
        }
        Ok(())
    }

    fn is_panic(&self, n: &str) -> bool {
        n.contains("4core9panicking")
            || n.contains("13unwrap_failed")
            || n.contains("13expect_failed")
            || n.contains("slice_start_index_len_fail")
            || n.contains("slice_end_index_len_fail")
            || n.contains("slice_index_order_fail")
            || n.contains("slice_index_fail")
            || n.contains("str_index_overflow_fail")
            || n.contains("len_mismatch_fail")
            || n.contains("capacity_overflow")
            || n.contains("handle_alloc_error")
            || n.contains("slice_error_fail")
            || n.contains("begin_panic")
            || n.contains("panic_already_borrowed")
            || n.contains("panic_already_mutably_borrowed")
            || n.contains("raw_vec12handle_error")
            || n.contains("panic_advance")
    }

    fn panic_loc(&mut self, s: &State, args: &[Val]) -> String {
        for a in args.iter().rev() {
            if let Val::C(p) = a {
                let r: R<(u64, u64, u64, u64)> = (|| {
                    let g = |x: Val| match x {
                        Val::C(c) => Ok(c),
                        _ => lim("loc"),
                    };
                    let fp = g(self.load_int(s, *p, 64)?)?;
                    let fl = g(self.load_int(s, *p + 8, 64)?)?;
                    let li = g(self.load_int(s, *p + 16, 32)?)?;
                    let co = g(self.load_int(s, *p + 20, 32)?)?;
                    Ok((fp, fl, li, co))
                })();
                if let Ok((fp, fl, li, co)) = r {
                    if fl > 0 && fl < 512 && li < 1_000_000 {
                        if let Ok(n) = self.cstr(s, fp, fl) {
                            if n.contains(".rs") {
                                return format!("{}:{}:{}", n.trim_end_matches('\0'), li, co);
                            }
                        }
                    }
                }
            }
        }
        String::new()
    }

    fn arg(&self, v: &[(Val, u16)], i: usize) -> Val {
        v[i].0.clone()
    }

    fn ext(&mut self, s: &mut State, n: &str, v: Vec<(Val, u16)>, rw: u16) -> R<Val> {
        if let Some(r) = n.strip_prefix("llvm.") {
            return self.intrinsic(s, r, v, rw);
        }
        match n {
            "sx_sym" => {
                let p = self.arg(&v, 0);
                let p = self.pickv(s, &p)?;
                let l = self.arg(&v, 1);
                let l = self.pickv(s, &l)?;
                let (np, nl) = (self.arg(&v, 2), self.arg(&v, 3));
                let np = self.pickv(s, &np)?;
                let nl = self.pickv(s, &nl)?;
                let name = self.cstr(s, np, nl)?;
                if l == 0 {
                    return Ok(Val::C(0));
                }
                let start = s.nsym;
                let vars: Vec<E> = (0..l).map(|i| self.cx.var(start + i as u32)).collect();
                let (o, off) = self.wr(s, p, l)?;
                if o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()];
                }
                o.sym[off..off + l as usize].copy_from_slice(&vars);
                s.nsym += l as u32;
                s.names = Some(Rc::new(NameNode {
                    name: name.as_str().into(),
                    start,
                    len: l as u32,
                    prev: s.names.take(),
                }));
                return Ok(Val::C(0));
            }
            "sx_assume" => {
                match self.arg(&v, 0) {
                    Val::C(c) => {
                        if c & 1 == 0 {
                            return Err(Stop::Assumed);
                        }
                    }
                    Val::S(e) => {
                        let e = if self.cx.w(e) > 1 { self.cx.ext(e, 0, 1) } else { e };
                        let e = self.sub(s, e);
                        match self.cx.is_c(e) {
                            Some(1) => {}
                            Some(_) => return Err(Stop::Assumed),
                            None => {
                                if self.cx.eval(e, &s.model) != 1 {
                                    match self.solve(s, e)? {
                                        None => return Err(Stop::Assumed),
                                        Some(m) => s.model = m,
                                    }
                                }
                                self.add_con(s, e);
                            }
                        }
                    }
                    _ => return lim("assume"),
                }
                return Ok(Val::C(0));
            }
            "sx_check" => {
                let (np, nl) = (self.arg(&v, 1), self.arg(&v, 2));
                let np = self.pickv(s, &np)?;
                let nl = self.pickv(s, &nl)?;
                let msg = self.cstr(s, np, nl)?;
                self.st.checks += 1;
                s.trace = fnv(s.trace, &msg);
                *self.check_msgs.entry(msg.clone()).or_insert(0) += 1;
                match self.arg(&v, 0) {
                    Val::C(c) => {
                        self.st.checks_const += 1;
                        if c & 1 == 0 {
                            return Err(Stop::Viol("check".into(), msg, String::new()));
                        }
                    }
                    Val::S(e) => {
                        let e = if self.cx.w(e) > 1 { self.cx.ext(e, 0, 1) } else { e };
                        let e = self.sub(s, e);
                        let ne = self.cx.not1(e);
                        if let Some(m) = self.solve(s, ne)? {
                            self.report(s, &m, "check".into(), msg, String::new());
                            // go on where it holds, if anywhere
                            match self.solve(s, e)? {
                                None => return Err(Stop::Done),
                                Some(m) => {
                                    s.model = m;
                                    self.add_con(s, e);
                                }
                            }
                        }
                    }
                    _ => return lim("check"),
                }
                return Ok(Val::C(0));
            }
            "sx_cover" => {
                let (np, nl) = (self.arg(&v, 0), self.arg(&v, 1));
                let np = self.pickv(s, &np)?;
                let nl = self.pickv(s, &nl)?;
                let msg = self.cstr(s, np, nl)?;
                s.trace = fnv(s.trace, &msg);
                if !self.cover_w.contains_key(&msg) {
                    let mut w = (*s.model).clone();
                    w.resize(s.nsym as usize, 0);
                    self.cover_w.insert(msg.clone(), w);
                }
                *self.covers.entry(msg).or_insert(0) += 1;
                return Ok(Val::C(0));
            }
            "sx_end" => return Err(Stop::Done),
            "sx_concretize" => {
                let x = self.arg(&v, 0);
                return Ok(Val::C(self.pickv(s, &x)?));
            }
            "sx_param" => {
                let i = self.arg(&v, 0);
                let i = self.pickv(s, &i)? as usize;
                if i == 0xadd0 {
                    self.pick_addr = true;
                }
                return Ok(Val::C(*self.params.get(i).unwrap_or(&0)));
            }
            "bcmp" => {
                let (a, b, l) = (self.arg(&v, 0), self.arg(&v, 1), self.arg(&v, 2));
                let l = self.pickv(s, &l)?;
                if l == 0 {
                    return Ok(Val::C(0));
                }
                let a = self.pickv(s, &a)?;
                let b = self.pickv(s, &b)?;
                let x = self.bytes_at(s, a, l)?;
                let y = self.bytes_at(s, b, l)?;
                let mut acc = self.cx.t();
                for (p, q) in x.iter().zip(y.iter()) {
                    let c = self.cx.eq(*p, *q);
                    acc = self.cx.bin(Op::And, acc, c);
                    if self.cx.is_c(acc) == Some(0) {
                        break;
                    }
                }
                let ne = self.cx.not1(acc);
                let r = self.cx.zext(ne, 32);
                return Ok(self.norm(r));
            }
            "memcmp" => {
                let (a, b, l) = (self.arg(&v, 0), self.arg(&v, 1), self.arg(&v, 2));
                let l = self.pickv(s, &l)?;
                if l == 0 {
                    return Ok(Val::C(0));
                }
                let a = self.pickv(s, &a)?;
                let b = self.pickv(s, &b)?;
                let x = self.bytes_at(s, a, l)?;
                let y = self.bytes_at(s, b, l)?;
                let mut acc = self.cx.c(32, 0);
                for (p, q) in x.iter().zip(y.iter()).rev() {
                    let c = self.cx.eq(*p, *q);
                    let lt = self.cx.bin(Op::Ult, *p, *q);
                    let m1 = self.cx.c(32, 0xffff_ffff);
                    let p1 = self.cx.c(32, 1);
                    let d = self.cx.ite(lt, m1, p1);
                    acc = self.cx.ite(c, acc, d);
                }
                return Ok(self.norm(acc));
            }
            "memcpy" | "memmove" => {
                let (a, b, l) = (self.arg(&v, 0), self.arg(&v, 1), self.arg(&v, 2));
                let l = self.pickv(s, &l)?;
                let d = self.pickv(s, &a)?;
                let b = self.pickv(s, &b)?;
                self.memcpy(s, d, b, l)?;
                return Ok(Val::C(d));
            }
            "memset" => {
                let (a, b, l) = (self.arg(&v, 0), self.arg(&v, 1), self.arg(&v, 2));
                let l = self.pickv(s, &l)?;
                let d = self.pickv(s, &a)?;
                let b = match b {
                    Val::C(c) => Val::C(c & 0xff),
                    Val::S(e) => {
                        let e = self.cx.ext(e, 0, 8);
                        self.norm(e)
                    }
                    x => x,
                };
                self.memset(s, d, &b, l)?;
                return Ok(Val::C(d));
            }
            _ => {}
        }
        if self.is_panic(n) {
            let a: Vec<Val> = v.iter().map(|x| x.0.clone()).collect();
            let loc = self.panic_loc(s, &a);
            return Err(Stop::Viol("panic".into(), short(n), loc));
        }
        if n.contains("__rust_no_alloc_shim") {
            return Ok(Val::C(0));
        }
        if n.contains("__rust_dealloc") {
            let a = self.arg(&v, 0);
            let a = self.pickv(s, &a)?;
            if s.mem.remove(&a).is_none() {
                return Err(Stop::Viol("memory".into(), "free of something not allocated".into(), String::new()));
            }
            return Ok(Val::C(0));
        }
        if n.contains("__rust_realloc") {
            let (p, o, al, nn) = (self.arg(&v, 0), self.arg(&v, 1), self.arg(&v, 2), self.arg(&v, 3));
            let p = self.pickv(s, &p)?;
            let o = self.pickv(s, &o)?;
            let al = self.pickv(s, &al)?;
            let nn = self.pickv(s, &nn)?;
            if nn > 1 << 24 {
                return lim("huge allocation");
            }
            let a = self.new_obj(s, nn, al);
            self.memcpy(s, a, p, o.min(nn))?;
            s.mem.remove(&p);
            return Ok(Val::C(a));
        }
        if n.contains("__rust_alloc") {
            let (sz, al) = (self.arg(&v, 0), self.arg(&v, 1));
            let sz = self.pickv(s, &sz)?;
            let al = self.pickv(s, &al)?;
            if sz > 1 << 24 {
                return lim("huge allocation");
            }
            return Ok(Val::C(self.new_obj(s, sz, al)));
        }
        if n.contains("4core3fmt") {
            return Ok(Val::C(0));
        }
        lim(format!("external function {}", demangle(n)))
    }

    fn intrinsic(&mut self, s: &mut State, n: &str, v: Vec<(Val, u16)>, rw: u16) -> R<Val> {
        let head = n.split('.').next().unwrap_or("");
        let w = v.first().map(|x| x.1).unwrap_or(0);
        match head {
            "memcpy" | "memmove" => {
                let (a, b, l) = (self.arg(&v, 0), self.arg(&v, 1), self.arg(&v, 2));
                let l = self.pickv(s, &l)?;
                if l == 0 {
                    return Ok(Val::C(0));
                }
                let a = self.pickv(s, &a)?;
                let b = self.pickv(s, &b)?;
                self.memcpy(s, a, b, l)?;
                return Ok(Val::C(0));
            }
            "memset" => {
                let (a, b, l) = (self.arg(&v, 0), self.arg(&v, 1), self.arg(&v, 2));
                let l = self.pickv(s, &l)?;
                if l == 0 {
                    return Ok(Val::C(0));
                }
                let a = self.pickv(s, &a)?;
                self.memset(s, a, &b, l)?;
                return Ok(Val::C(0));
            }
            "assume" | "prefetch" | "va_start" => return Ok(Val::C(0)),
            "trap" | "debugtrap" => return Err(Stop::Viol("panic".into(), "trap".into(), String::new())),
            "expect" => return Ok(self.arg(&v, 0)),
            "umin" | "umax" | "smin" | "smax" => {
                let (a, b) = (self.arg(&v, 0), self.arg(&v, 1));
                let p = match head {
                    "umin" => Pred::Ult,
                    "umax" => Pred::Ugt,
                    "smin" => Pred::Slt,
                    _ => Pred::Sgt,
                };
                return Ok(match self.cmp(p, w, &a, &b) {
                    Val::C(1) => a,
                    Val::C(_) => b,
                    Val::S(c) => self.merge(c, &a, &b, &LTy::Int(w)),
                    _ => return lim("min"),
                });
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" => {
                let (a, b) = (self.arg(&v, 0), self.arg(&v, 1));
                let sat = n.contains(".sat.");
                let op = match head {
                    "uadd" | "sadd" => BOp::Add,
                    "usub" | "ssub" => BOp::Sub,
                    _ => BOp::Mul,
                };
                let r = self.binop(op, w, &a, &b)?;
                let o = match head {
                    "uadd" => self.cmp(Pred::Ult, w, &r, &a),
                    "usub" => self.cmp(Pred::Ult, w, &a, &b),
                    "umul" => {
                        if w > 64 {
                            return lim("wide multiply");
                        }
                        let x = self.e(&a, w);
                        let y = self.e(&b, w);
                        let x = self.cx.zext(x, 2 * w);
                        let y = self.cx.zext(y, 2 * w);
                        let m = self.cx.bin(Op::Mul, x, y);
                        let h = self.cx.ext(m, w, w);
                        let z = self.cx.c(w, 0);
                        let c = self.cx.eq(h, z);
                        let c = self.cx.not1(c);
                        self.norm(c)
                    }
                    _ => {
                        let x = self.e(&a, w);
                        let y = self.e(&b, w);
                        let x = self.cx.sextend(x, w + 1);
                        let y = self.cx.sextend(y, w + 1);
                        let m = self.cx.bin(if head == "sadd" { Op::Add } else { Op::Sub }, x, y);
                        let rr = self.e(&r, w);
                        let rr = self.cx.sextend(rr, w + 1);
                        let c = self.cx.eq(m, rr);
                        let c = self.cx.not1(c);
                        self.norm(c)
                    }
                };
                if sat {
                    if head.starts_with('s') {
                        return lim("signed saturation");
                    }
                    let lim_v = if head == "uadd" { Val::C(mask(w) as u64) } else { Val::C(0) };
                    return Ok(match o {
                        Val::C(1) => lim_v,
                        Val::C(_) => r,
                        Val::S(c) => self.merge(c, &lim_v, &r, &LTy::Int(w)),
                        _ => return lim("sat"),
                    });
                }
                return Ok(Val::A(Rc::new(vec![r, o])));
            }
            "ctpop" | "ctlz" | "cttz" | "bswap" | "bitreverse" | "abs" => {
                let a = self.arg(&v, 0);
                if let Val::C(c) = a {
                    let x = c as u128 & mask(w);
                    let r: u128 = match head {
                        "ctpop" => x.count_ones() as u128,
                        "ctlz" => {
                            if x == 0 {
                                w as u128
                            } else {
                                (x.leading_zeros() as u128) - (128 - w as u128)
                            }
                        }
                        "cttz" => {
                            if x == 0 {
                                w as u128
                            } else {
                                x.trailing_zeros() as u128
                            }
                        }
                        "bswap" => x.swap_bytes() >> (128 - w as u32),
                        "bitreverse" => x.reverse_bits() >> (128 - w as u32),
                        _ => {
                            let y = sext(x, w);
                            (y.unsigned_abs()) & mask(w)
                        }
                    };
                    return Ok(Val::C(r as u64));
                }
                let e = self.e(&a, w);
                let r = match head {
                    "ctpop" => {
                        let mut acc = self.cx.c(w, 0);
                        for i in 0..w {
                            let b = self.cx.ext(e, i, 1);
                            let b = self.cx.zext(b, w);
                            acc = self.cx.bin(Op::Add, acc, b);
                        }
                        acc
                    }
                    "ctlz" => {
                        let mut acc = self.cx.c(w, w as u128);
                        for i in 0..w {
                            let b = self.cx.ext(e, i, 1);
                            let k = self.cx.c(w, (w - 1 - i) as u128);
                            acc = self.cx.ite(b, k, acc);
                        }
                        acc
                    }
                    "cttz" => {
                        let mut acc = self.cx.c(w, w as u128);
                        for i in (0..w).rev() {
                            let b = self.cx.ext(e, i, 1);
                            let k = self.cx.c(w, i as u128);
                            acc = self.cx.ite(b, k, acc);
                        }
                        acc
                    }
                    "bswap" => {
                        let mut acc = self.cx.ext(e, 0, 8);
                        for i in 1..w / 8 {
                            let b = self.cx.ext(e, i * 8, 8);
                            acc = self.cx.concat(acc, b);
                        }
                        acc
                    }
                    "bitreverse" => {
                        let mut acc = self.cx.ext(e, 0, 1);
                        for i in 1..w {
                            let b = self.cx.ext(e, i, 1);
                            acc = self.cx.concat(acc, b);
                        }
                        acc
                    }
                    _ => {
                        let z = self.cx.c(w, 0);
                        let ng = self.cx.bin(Op::Sub, z, e);
                        let c = self.cx.bin(Op::Slt, e, z);
                        self.cx.ite(c, ng, e)
                    }
                };
                return Ok(self.norm(r));
            }
            "fshl" | "fshr" => {
                let (a, b, k) = (self.arg(&v, 0), self.arg(&v, 1), self.arg(&v, 2));
                let k = self.pickv(s, &k)? % w as u64;
                if 2 * w > 128 {
                    return lim("wide funnel shift");
                }
                let x = self.e(&a, w);
                let y = self.e(&b, w);
                let c = self.cx.concat(x, y);
                let lo = if head == "fshl" { w as u64 - k } else { k };
                let r = if lo == w as u64 && head == "fshl" {
                    x
                } else {
                    self.cx.ext(c, lo as u16, w)
                };
                return Ok(self.norm(r));
            }
            "ucmp" | "scmp" => {
                let (a, b) = (self.arg(&v, 0), self.arg(&v, 1));
                let p = if head == "ucmp" { Pred::Ult } else { Pred::Slt };
                let lt = self.cmp(p, w, &a, &b);
                let eq = self.cmp(Pred::Eq, w, &a, &b);
                let lt = self.e(&lt, 1);
                let eq = self.e(&eq, 1);
                let (m, z, o) = (self.cx.c(rw, mask(rw)), self.cx.c(rw, 0), self.cx.c(rw, 1));
                let r = self.cx.ite(eq, z, o);
                let r = self.cx.ite(lt, m, r);
                return Ok(self.norm(r));
            }
            "threadlocal" => return Ok(self.arg(&v, 0)),
            _ => {}
        }
        lim(format!("intrinsic llvm.{}", n))
    }
}

fn short(n: &str) -> String {
    let d = demangle(n);
    d.rsplit("::").next().unwrap_or(&d).to_string()
}
