//! Reader for the textual LLVM IR that rustc writes.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    Float(u16),
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Named(Rc<str>),
    Other,
}

#[derive(Clone, Debug)]
pub enum Cst {
    Int(Ty, u128),
    Null,
    Undef(Ty),
    Zero(Ty),
    Bytes(Vec<u8>),
    Agg(Ty, Vec<Cst>),
    Global(Rc<str>),
    Gep(Ty, Box<Cst>, Vec<Cst>),
    Cast(Box<Cst>, Ty),
    Bin(String, Box<Cst>, Box<Cst>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    Reg(u32),
    C(Cst),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Name(Rc<str>),
    Reg(u32),
    Asm(String),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(String, Ty, Opnd, Opnd),
    Icmp(String, Ty, Opnd, Opnd),
    Cast(String, Ty, Opnd, Ty),
    Load(Ty, Opnd),
    Store(Ty, Opnd, Opnd),
    Gep(Ty, Opnd, Vec<(Ty, Opnd)>),
    Alloca(Ty, Ty, Option<Opnd>, u64),
    Call(Ty, Callee, Vec<(Ty, Opnd)>),
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(Ty, Opnd, u32, Vec<(u128, u32)>),
    Ret(Ty, Option<Opnd>),
    Unreachable,
    Select(Opnd, Ty, Opnd, Opnd),
    Extract(Ty, Opnd, Vec<u32>),
    Insert(Ty, Opnd, Ty, Opnd, Vec<u32>),
    Phi(Ty, Vec<(Opnd, u32)>),
    Freeze(Ty, Opnd),
    Rmw(String, Opnd, Ty, Opnd),
    CmpXchg(Opnd, Ty, Opnd, Opnd),
    Nop,
    Unsupported(String),
}

pub struct Block {
    pub ins: Vec<(Option<u32>, I)>,
}

pub struct Func {
    pub name: Rc<str>,
    pub module: usize,
    pub params: Vec<u32>,
    pub nregs: usize,
    pub blocks: Vec<Block>,
}

pub struct FnSrc {
    pub name: Rc<str>,
    pub module: usize,
    pub header: String,
    pub body: Vec<String>,
    pub internal: bool,
}

pub struct GlobalSrc {
    pub name: Rc<str>,
    pub module: usize,
    pub ty: Ty,
    pub init: Option<Cst>,
    pub align: u64,
    pub constant: bool,
}

pub struct Module {
    pub types: HashMap<Rc<str>, Ty>,
    pub fns: Vec<FnSrc>,
    pub globals: Vec<GlobalSrc>,
    pub aliases: Vec<(Rc<str>, Rc<str>)>,
}

pub struct Cur<'a> {
    s: &'a [u8],
    pub i: usize,
}

type R<T> = Result<T, String>;

impl<'a> Cur<'a> {
    pub fn new(s: &'a str) -> Cur<'a> {
        Cur { s: s.as_bytes(), i: 0 }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] as char).is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn need(&mut self, c: u8) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected '{}' at {}: {}", c as char, self.i, self.rest()))
        }
    }
    fn rest(&self) -> String {
        String::from_utf8_lossy(&self.s[self.i.min(self.s.len())..]).chars().take(120).collect()
    }
    fn word(&mut self) -> String {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' {
                self.i += 1;
            } else {
                break;
            }
        }
        String::from_utf8_lossy(&self.s[st..self.i]).to_string()
    }
    fn peek_word(&mut self) -> String {
        self.ws();
        let i = self.i;
        let w = self.word();
        self.i = i;
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        self.ws();
        let i = self.i;
        if self.word() == w {
            true
        } else {
            self.i = i;
            false
        }
    }
    /// name after % or @ (already consumed)
    fn name(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).to_string();
            self.i += 1;
            r
        } else {
            let st = self.i;
            while self.i < self.s.len() {
                let c = self.s[self.i];
                if c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-') {
                    self.i += 1;
                } else {
                    break;
                }
            }
            String::from_utf8_lossy(&self.s[st..self.i]).to_string()
        }
    }
    fn int(&mut self) -> R<u128> {
        self.ws();
        let neg = self.eat(b'-');
        let st = self.i;
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
            self.i += 1;
        }
        let t = std::str::from_utf8(&self.s[st..self.i]).unwrap();
        let v: u128 = t.parse().map_err(|_| format!("int at {}", self.rest()))?;
        Ok(if neg { (v as i128).wrapping_neg() as u128 } else { v })
    }
    pub fn ty(&mut self) -> R<Ty> {
        let c = self.peek();
        let mut t = match c {
            b'%' => {
                self.i += 1;
                Ty::Named(self.name().into())
            }
            b'[' => {
                self.i += 1;
                let n = self.int()? as u64;
                if !self.eat_word("x") {
                    return Err("array type".into());
                }
                let e = self.ty()?;
                self.need(b']')?;
                Ty::Arr(n, Rc::new(e))
            }
            b'{' => {
                self.i += 1;
                let v = self.ty_list(b'}')?;
                Ty::Struct(Rc::new(v), false)
            }
            b'<' => {
                self.i += 1;
                if self.eat(b'{') {
                    let v = self.ty_list(b'}')?;
                    self.need(b'>')?;
                    Ty::Struct(Rc::new(v), true)
                } else {
                    let n = self.int()? as u64;
                    if !self.eat_word("x") {
                        return Err("vector type".into());
                    }
                    let e = self.ty()?;
                    self.need(b'>')?;
                    Ty::Vec(n, Rc::new(e))
                }
            }
            _ => {
                let w = self.word();
                match w.as_str() {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "float" => Ty::Float(32),
                    "double" => Ty::Float(64),
                    "label" | "metadata" | "opaque" | "token" => Ty::Other,
                    _ if w.starts_with('i') && w[1..].parse::<u16>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                    _ => return Err(format!("type '{}' near {}", w, self.rest())),
                }
            }
        };
        // function type: skip the parameter list
        if matches!(t, Ty::Void | Ty::Int(_) | Ty::Ptr | Ty::Struct(..) | Ty::Named(_)) {
            let save = self.i;
            self.ws();
            if self.i < self.s.len() && self.s[self.i] == b'(' && self.fn_ty_ahead() {
                self.skip_parens();
                t = Ty::Other;
                let _ = save;
            } else {
                self.i = save;
            }
        }
        Ok(t)
    }
    /// true when "(...)" at the cursor is followed by a callee (i.e. it is a function type)
    fn fn_ty_ahead(&mut self) -> bool {
        let save = self.i;
        self.skip_parens();
        self.ws();
        let c = *self.s.get(self.i).unwrap_or(&0);
        self.i = save;
        c == b'@' || c == b'%' || c == b','
    }
    fn skip_parens(&mut self) {
        let mut d = 0;
        while self.i < self.s.len() {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.i < self.s.len() && self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn ty_list(&mut self, end: u8) -> R<Vec<Ty>> {
        let mut v = Vec::new();
        if self.eat(end) {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.eat(b',') {
                continue;
            }
            self.need(end)?;
            return Ok(v);
        }
    }
    fn attrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'#' {
                self.i += 1;
                self.word();
                continue;
            }
            if c == b'"' {
                // string attribute
                self.i += 1;
                self.name_tail();
                if self.eat(b'=') {
                    self.peek();
                    self.i += 1;
                    self.name_tail();
                }
                continue;
            }
            if !c.is_ascii_alphabetic() {
                return;
            }
            let save = self.i;
            let w = self.word();
            match w.as_str() {
                "align" => {
                    if !self.eat(b'(') {
                        let _ = self.int();
                    } else {
                        let _ = self.int();
                        self.eat(b')');
                    }
                }
                "noundef" | "noalias" | "nonnull" | "readonly" | "readnone" | "writeonly" | "nocapture" | "immarg"
                | "zeroext" | "signext" | "inreg" | "returned" | "nofree" | "allocptr" | "allocalign" | "nest"
                | "swiftself" | "swifterror" | "inalloca" | "nounwind" | "noreturn" | "unnamed_addr"
                | "local_unnamed_addr" | "internal" | "private" | "external" | "linkonce_odr" | "weak_odr" | "weak"
                | "hidden" | "dso_local" | "available_externally" | "common" | "fastcc" | "coldcc" | "tailcc"
                | "protected" | "linkonce" | "extern_weak" | "thread_local" | "externally_initialized" | "dead_on_unwind"
                | "writable" => {}
                "dereferenceable" | "dereferenceable_or_null" | "sret" | "byval" | "byref" | "elementtype"
                | "preallocated" | "captures" | "initializes" | "range" | "memory" | "nofpclass" | "addrspace" => {
                    self.ws();
                    if self.i < self.s.len() && self.s[self.i] == b'(' {
                        self.skip_parens();
                    }
                }
                _ => {
                    self.i = save;
                    return;
                }
            }
        }
    }
    fn name_tail(&mut self) {
        while self.i < self.s.len() && self.s[self.i] != b'"' {
            self.i += 1;
        }
        self.i += 1;
    }
    fn cstr(&mut self) -> Vec<u8> {
        // after c"
        let mut v = Vec::new();
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                if self.s[self.i + 1] == b'\\' {
                    v.push(b'\\');
                    self.i += 2;
                    continue;
                }
                let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                v.push(u8::from_str_radix(h, 16).unwrap());
                self.i += 3;
            } else {
                v.push(self.s[self.i]);
                self.i += 1;
            }
        }
        self.i += 1;
        v
    }
    pub fn cst(&mut self, ty: &Ty) -> R<Cst> {
        let c = self.peek();
        match c {
            b'@' => {
                self.i += 1;
                return Ok(Cst::Global(self.name().into()));
            }
            b'[' => {
                self.i += 1;
                return Ok(Cst::Agg(ty.clone(), self.cst_list(b']')?));
            }
            b'{' => {
                self.i += 1;
                return Ok(Cst::Agg(ty.clone(), self.cst_list(b'}')?));
            }
            b'<' => {
                self.i += 1;
                if self.eat(b'{') {
                    let v = self.cst_list(b'}')?;
                    self.need(b'>')?;
                    return Ok(Cst::Agg(ty.clone(), v));
                }
                let v = self.cst_list(b'>')?;
                return Ok(Cst::Agg(ty.clone(), v));
            }
            b'-' | b'0'..=b'9' => {
                let v = self.int()?;
                return Ok(Cst::Int(ty.clone(), v));
            }
            b'c' if self.s.get(self.i + 1) == Some(&b'"') => {
                self.i += 2;
                return Ok(Cst::Bytes(self.cstr()));
            }
            _ => {}
        }
        let w = self.word();
        match w.as_str() {
            "true" => Ok(Cst::Int(Ty::Int(1), 1)),
            "false" => Ok(Cst::Int(Ty::Int(1), 0)),
            "null" => Ok(Cst::Null),
            "undef" | "poison" => Ok(Cst::Undef(ty.clone())),
            "zeroinitializer" => Ok(Cst::Zero(ty.clone())),
            "getelementptr" => {
                while matches!(self.peek_word().as_str(), "inbounds" | "nuw" | "nusw") {
                    self.word();
                }
                self.need(b'(')?;
                let bt = self.ty()?;
                self.need(b',')?;
                let pt = self.ty()?;
                let base = self.cst(&pt)?;
                let mut idx = Vec::new();
                while self.eat(b',') {
                    self.eat_word("inrange");
                    let it = self.ty()?;
                    idx.push(self.cst(&it)?);
                }
                self.need(b')')?;
                Ok(Cst::Gep(bt, Box::new(base), idx))
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "addrspacecast" => {
                self.need(b'(')?;
                let ft = self.ty()?;
                let v = self.cst(&ft)?;
                if !self.eat_word("to") {
                    return Err("cast constexpr".into());
                }
                let tt = self.ty()?;
                self.need(b')')?;
                Ok(Cst::Cast(Box::new(v), tt))
            }
            "add" | "sub" | "mul" | "and" | "or" | "xor" | "shl" | "lshr" => {
                while matches!(self.peek_word().as_str(), "nsw" | "nuw") {
                    self.word();
                }
                self.need(b'(')?;
                let ft = self.ty()?;
                let a = self.cst(&ft)?;
                self.need(b',')?;
                let ft = self.ty()?;
                let b = self.cst(&ft)?;
                self.need(b')')?;
                Ok(Cst::Bin(w, Box::new(a), Box::new(b)))
            }
            _ => Err(format!("constant '{}' near {}", w, self.rest())),
        }
    }
    fn cst_list(&mut self, end: u8) -> R<Vec<Cst>> {
        let mut v = Vec::new();
        if self.eat(end) {
            return Ok(v);
        }
        loop {
            let t = self.ty()?;
            v.push(self.cst(&t)?);
            if self.eat(b',') {
                continue;
            }
            self.need(end)?;
            return Ok(v);
        }
    }
}

pub fn parse_module(text: &str, module: usize) -> R<Module> {
    let mut m = Module {
        types: HashMap::new(),
        fns: Vec::new(),
        globals: Vec::new(),
        aliases: Vec::new(),
    };
    let mut lines = text.lines();
    while let Some(l) = lines.next() {
        if l.is_empty() || l.starts_with(';') || l.starts_with('!') || l.starts_with("source_filename") {
            continue;
        }
        if l.starts_with('%') {
            let mut c = Cur::new(l);
            c.i = 1;
            let n = c.name();
            c.need(b'=')?;
            if !c.eat_word("type") {
                return Err(format!("type line {}", l));
            }
            if c.eat_word("opaque") {
                continue;
            }
            let t = c.ty()?;
            m.types.insert(n.into(), t);
        } else if l.starts_with('@') {
            let mut c = Cur::new(l);
            c.i = 1;
            let n: Rc<str> = c.name().into();
            c.need(b'=')?;
            c.attrs();
            let w = c.word();
            if w == "alias" {
                // <fnty>, ptr @target
                let _ = c.ty();
                let k = l.rfind('@').unwrap();
                let mut c2 = Cur::new(l);
                c2.i = k + 1;
                m.aliases.push((n, c2.name().into()));
                continue;
            }
            if w != "constant" && w != "global" {
                return Err(format!("global line {}", l));
            }
            let external = l[..l.len().min(400)].contains("= external ");
            let ty = c.ty()?;
            let init = if external { None } else { Some(c.cst(&ty)?) };
            let mut align = 8;
            if let Some(k) = l.rfind(", align ") {
                let mut c2 = Cur::new(l);
                c2.i = k + 8;
                align = c2.int()? as u64;
            }
            m.globals.push(GlobalSrc {
                name: n,
                module,
                ty,
                init,
                align,
                constant: w == "constant",
            });
        } else if l.starts_with("define") {
            let at = find_at(l).ok_or("define")?;
            let mut c = Cur::new(l);
            c.i = at + 1;
            let n: Rc<str> = c.name().into();
            let mut body = Vec::new();
            for b in lines.by_ref() {
                if b == "}" {
                    break;
                }
                if b.is_empty() || b.starts_with(';') {
                    continue;
                }
                body.push(b.to_string());
            }
            m.fns.push(FnSrc {
                internal: l.starts_with("define internal") || l.starts_with("define private"),
                name: n,
                module,
                header: l.to_string(),
                body,
            });
        }
    }
    Ok(m)
}

fn find_at(l: &str) -> Option<usize> {
    // first @ outside quotes
    let b = l.as_bytes();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'"' => {
                i += 1;
                while b[i] != b'"' {
                    i += 1;
                }
            }
            b'@' => return Some(i),
            _ => {}
        }
        i += 1;
    }
    None
}

struct FnCtx {
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}

impl FnCtx {
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn label(&mut self, n: &str) -> u32 {
        *self.labels.get(n).unwrap_or_else(|| panic!("label {}", n))
    }
}

fn opnd(c: &mut Cur, f: &mut FnCtx, ty: &Ty) -> R<Opnd> {
    c.attrs();
    if c.eat(b'%') {
        let n = c.name();
        return Ok(Opnd::Reg(f.reg(&n)));
    }
    Ok(Opnd::C(c.cst(ty)?))
}

fn label(c: &mut Cur, f: &mut FnCtx) -> R<u32> {
    if !c.eat_word("label") {
        return Err("label".into());
    }
    c.need(b'%')?;
    let n = c.name();
    Ok(f.label(&n))
}

pub fn parse_fn(src: &FnSrc) -> R<Func> {
    let mut f = FnCtx {
        regs: HashMap::new(),
        labels: HashMap::new(),
    };
    // header
    let at = find_at(&src.header).unwrap();
    let mut c = Cur::new(&src.header);
    c.i = at + 1;
    c.name();
    c.need(b'(')?;
    let mut params = Vec::new();
    let mut anon = 0;
    if !c.eat(b')') {
        loop {
            let _t = c.ty()?;
            c.attrs();
            if c.eat(b'%') {
                let n = c.name();
                params.push(f.reg(&n));
            } else {
                params.push(f.reg(&format!("{}", anon)));
            }
            anon += 1;
            if c.eat(b',') {
                continue;
            }
            c.need(b')')?;
            break;
        }
    }
    // labels
    let mut nb = 0u32;
    let mut first_unnamed = true;
    let mut lines: Vec<String> = Vec::new();
    let mut it = src.body.iter().peekable();
    while let Some(l) = it.next() {
        if l.starts_with("  switch") || l.trim_start().starts_with("switch ") {
            let mut s = l.clone();
            if !s.trim_end().ends_with(']') {
                for x in it.by_ref() {
                    s.push(' ');
                    s.push_str(x.trim());
                    if x.trim_start().starts_with(']') {
                        break;
                    }
                }
            }
            lines.push(s);
        } else {
            lines.push(l.clone());
        }
    }
    for l in &lines {
        if !l.starts_with(' ') {
            let mut c = Cur::new(l);
            let n = if c.peek() == b'"' { c.name() } else { c.name() };
            f.labels.insert(n, nb);
            nb += 1;
        } else if nb == 0 && first_unnamed {
            // entry block without label
            f.labels.insert(format!("{}", anon), 0);
            nb += 1;
        }
        first_unnamed = false;
    }
    let mut blocks: Vec<Block> = Vec::new();
    for l in &lines {
        if !l.starts_with(' ') {
            blocks.push(Block { ins: Vec::new() });
            continue;
        }
        if blocks.is_empty() {
            blocks.push(Block { ins: Vec::new() });
        }
        let t = l.trim();
        if t.starts_with(';') {
            continue;
        }
        let (d, i) = match parse_ins(t, &mut f) {
            Ok(x) => x,
            Err(e) => (None, I::Unsupported(format!("{} in: {}", e, t))),
        };
        if let I::Nop = i {
            continue;
        }
        blocks.last_mut().unwrap().ins.push((d, i));
    }
    Ok(Func {
        name: src.name.clone(),
        module: src.module,
        params,
        nregs: f.regs.len(),
        blocks,
    })
}

fn parse_ins(t: &str, f: &mut FnCtx) -> R<(Option<u32>, I)> {
    let mut c = Cur::new(t);
    let mut d = None;
    if c.peek() == b'%' {
        c.i += 1;
        let n = c.name();
        c.need(b'=')?;
        d = Some(f.reg(&n));
    }
    let mut op = c.word();
    while matches!(op.as_str(), "tail" | "musttail" | "notail") {
        op = c.word();
    }
    let i = match op.as_str() {
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
            while matches!(c.peek_word().as_str(), "nsw" | "nuw" | "exact" | "disjoint") {
                c.word();
            }
            let ty = c.ty()?;
            let a = opnd(&mut c, f, &ty)?;
            c.need(b',')?;
            let b = opnd(&mut c, f, &ty)?;
            I::Bin(op, ty, a, b)
        }
        "icmp" => {
            let p = c.word();
            let ty = c.ty()?;
            let a = opnd(&mut c, f, &ty)?;
            c.need(b',')?;
            let b = opnd(&mut c, f, &ty)?;
            I::Icmp(p, ty, a, b)
        }
        "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" => {
            while matches!(c.peek_word().as_str(), "nneg" | "nsw" | "nuw") {
                c.word();
            }
            let ty = c.ty()?;
            let a = opnd(&mut c, f, &ty)?;
            if !c.eat_word("to") {
                return Err("cast".into());
            }
            let tt = c.ty()?;
            I::Cast(op, ty, a, tt)
        }
        "load" => {
            while matches!(c.peek_word().as_str(), "atomic" | "volatile") {
                c.word();
            }
            let ty = c.ty()?;
            c.need(b',')?;
            let pt = c.ty()?;
            let p = opnd(&mut c, f, &pt)?;
            I::Load(ty, p)
        }
        "store" => {
            while matches!(c.peek_word().as_str(), "atomic" | "volatile") {
                c.word();
            }
            let ty = c.ty()?;
            let v = opnd(&mut c, f, &ty)?;
            c.need(b',')?;
            let pt = c.ty()?;
            let p = opnd(&mut c, f, &pt)?;
            I::Store(ty, v, p)
        }
        "getelementptr" => {
            while matches!(c.peek_word().as_str(), "inbounds" | "nuw" | "nusw") {
                c.word();
            }
            let bt = c.ty()?;
            c.need(b',')?;
            let pt = c.ty()?;
            let p = opnd(&mut c, f, &pt)?;
            let mut idx = Vec::new();
            while c.eat(b',') {
                if c.peek() == b'!' {
                    break;
                }
                let it = c.ty()?;
                let o = opnd(&mut c, f, &it)?;
                idx.push((it, o));
            }
            I::Gep(bt, p, idx)
        }
        "alloca" => {
            let ty = c.ty()?;
            let mut n = None;
            let mut nt = Ty::Int(64);
            let mut al = 8;
            while c.eat(b',') {
                if c.eat_word("align") {
                    al = c.int()? as u64;
                } else if c.peek() == b'!' {
                    break;
                } else {
                    nt = c.ty()?;
                    n = Some(opnd(&mut c, f, &nt)?);
                }
            }
            I::Alloca(ty, nt, n, al)
        }
        "br" => {
            if c.peek_word() == "label" {
                I::Br(label(&mut c, f)?)
            } else {
                let ty = c.ty()?;
                let a = opnd(&mut c, f, &ty)?;
                c.need(b',')?;
                let x = label(&mut c, f)?;
                c.need(b',')?;
                let y = label(&mut c, f)?;
                I::CondBr(a, x, y)
            }
        }
        "switch" => {
            let ty = c.ty()?;
            let a = opnd(&mut c, f, &ty)?;
            c.need(b',')?;
            let dflt = label(&mut c, f)?;
            c.need(b'[')?;
            let mut v = Vec::new();
            let w = if let Ty::Int(w) = ty { w } else { return Err("switch type".into()) };
            while !c.eat(b']') {
                let _ = c.ty()?;
                let k = if c.eat_word("true") {
                    1
                } else if c.eat_word("false") {
                    0
                } else {
                    c.int()?
                };
                c.need(b',')?;
                let l = label(&mut c, f)?;
                v.push((k & crate::expr::mask(w), l));
            }
            I::Switch(ty, a, dflt, v)
        }
        "ret" => {
            let ty = c.ty()?;
            if ty == Ty::Void {
                I::Ret(ty, None)
            } else {
                let a = opnd(&mut c, f, &ty)?;
                I::Ret(ty, Some(a))
            }
        }
        "unreachable" => I::Unreachable,
        "select" => {
            let t1 = c.ty()?;
            let a = opnd(&mut c, f, &t1)?;
            c.need(b',')?;
            let t2 = c.ty()?;
            let b = opnd(&mut c, f, &t2)?;
            c.need(b',')?;
            let t3 = c.ty()?;
            let e = opnd(&mut c, f, &t3)?;
            I::Select(a, t2, b, e)
        }
        "extractvalue" => {
            let ty = c.ty()?;
            let a = opnd(&mut c, f, &ty)?;
            let mut v = Vec::new();
            while c.eat(b',') {
                if c.peek() == b'!' {
                    break;
                }
                v.push(c.int()? as u32);
            }
            I::Extract(ty, a, v)
        }
        "insertvalue" => {
            let ty = c.ty()?;
            let a = opnd(&mut c, f, &ty)?;
            c.need(b',')?;
            let t2 = c.ty()?;
            let b = opnd(&mut c, f, &t2)?;
            let mut v = Vec::new();
            while c.eat(b',') {
                if c.peek() == b'!' {
                    break;
                }
                v.push(c.int()? as u32);
            }
            I::Insert(ty, a, t2, b, v)
        }
        "phi" => {
            let ty = c.ty()?;
            let mut v = Vec::new();
            loop {
                c.need(b'[')?;
                let a = opnd(&mut c, f, &ty)?;
                c.need(b',')?;
                c.need(b'%')?;
                let n = c.name();
                let l = f.label(&n);
                c.need(b']')?;
                v.push((a, l));
                if !c.eat(b',') {
                    break;
                }
                if c.peek() != b'[' {
                    break;
                }
            }
            I::Phi(ty, v)
        }
        "freeze" => {
            let ty = c.ty()?;
            let a = opnd(&mut c, f, &ty)?;
            I::Freeze(ty, a)
        }
        "fence" => I::Nop,
        "atomicrmw" => {
            c.eat_word("volatile");
            let k = c.word();
            let pt = c.ty()?;
            let p = opnd(&mut c, f, &pt)?;
            c.need(b',')?;
            let ty = c.ty()?;
            let v = opnd(&mut c, f, &ty)?;
            I::Rmw(k, p, ty, v)
        }
        "cmpxchg" => {
            while matches!(c.peek_word().as_str(), "weak" | "volatile") {
                c.word();
            }
            let pt = c.ty()?;
            let p = opnd(&mut c, f, &pt)?;
            c.need(b',')?;
            let ty = c.ty()?;
            let a = opnd(&mut c, f, &ty)?;
            c.need(b',')?;
            let ty2 = c.ty()?;
            let b = opnd(&mut c, f, &ty2)?;
            I::CmpXchg(p, ty, a, b)
        }
        "call" => {
            // [cc] [ret attrs] <ty> callee(args)
            loop {
                let w = c.peek_word();
                if matches!(w.as_str(), "fastcc" | "coldcc" | "ccc" | "nnan" | "nsz" | "contract" | "reassoc") {
                    c.word();
                } else {
                    break;
                }
            }
            c.attrs();
            let rt0 = c.i;
            let ty = match c.ty() {
                Ok(t) => t,
                Err(e) => {
                    let _ = rt0;
                    return Err(e);
                }
            };
            c.peek();
            let callee = if c.eat(b'@') {
                Callee::Name(c.name().into())
            } else if c.eat(b'%') {
                let n = c.name();
                Callee::Reg(f.reg(&n))
            } else if c.eat_word("asm") {
                return Ok((d, I::Call(ty, Callee::Asm(t.to_string()), vec![])));
            } else {
                return Err("callee".into());
            };
            if let Callee::Name(n) = &callee {
                if n.starts_with("llvm.lifetime")
                    || n.starts_with("llvm.experimental.noalias")
                    || n.starts_with("llvm.dbg")
                    || n.starts_with("llvm.x86.sse2.pause")
                    || n.starts_with("llvm.donothing")
                {
                    return Ok((None, I::Nop));
                }
            }
            c.need(b'(')?;
            let mut args = Vec::new();
            if !c.eat(b')') {
                loop {
                    let at = c.ty()?;
                    if at == Ty::Other {
                        return Err("metadata arg".into());
                    }
                    let a = opnd(&mut c, f, &at)?;
                    args.push((at, a));
                    if c.eat(b',') {
                        continue;
                    }
                    c.need(b')')?;
                    break;
                }
            }
            I::Call(ty, callee, args)
        }
        _ => return Err(format!("instruction {}", op)),
    };
    Ok((d, i))
}
