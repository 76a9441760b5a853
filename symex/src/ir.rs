//! Textual LLVM IR front end: parses the module produced by rustc (fat LTO) into a compact form.
//! Function bodies are parsed lazily, on first call.
use crate::expr::{cx, V};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Struct(Rc<Vec<Ty>>, bool),
    Array(u64, Rc<Ty>),
    Vector(u64, Rc<Ty>),
    Other,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let mut s = 1;
                while s < b {
                    s *= 2;
                }
                if b > 16 {
                    b
                } else {
                    s
                }
            }
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Struct(fs, packed) => {
                let mut off = 0u64;
                let mut al = 1;
                for f in fs.iter() {
                    let a = if *packed { 1 } else { f.align() };
                    al = al.max(a);
                    off = (off + a - 1) / a * a;
                    off += f.size();
                }
                (off + al - 1) / al * al
            }
            Ty::Array(n, t) => n * t.size(),
            Ty::Vector(n, t) => match &**t {
                Ty::Int(w) if *w < 8 => (*n * *w as u64 + 7) / 8,
                _ => n * t.store_size(),
            },
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            t => t.size(),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(_) => self.size().min(16),
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            Ty::Array(_, t) => t.align(),
            Ty::Vector(..) => self.size().next_power_of_two().min(16),
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(fs, packed) => {
                let mut off = 0u64;
                for (k, f) in fs.iter().enumerate() {
                    let a = if *packed { 1 } else { f.align() };
                    off = (off + a - 1) / a * a;
                    if k == i {
                        return off;
                    }
                    off += f.size();
                }
                panic!("field_off")
            }
            Ty::Array(_, t) => t.size() * i as u64,
            Ty::Vector(_, t) => t.store_size() * i as u64,
            _ => panic!("field_off on {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(fs, _) => fs[i].clone(),
            Ty::Array(_, t) | Ty::Vector(_, t) => (**t).clone(),
            _ => panic!("elem on {:?}", self),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(fs, _) => fs.len(),
            Ty::Array(n, _) | Ty::Vector(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn width(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            Ty::Vector(_, t) => t.width(),
            _ => 0,
        }
    }
    pub fn lanes(&self) -> u32 {
        match self {
            Ty::Vector(n, _) => *n as u32,
            _ => 0,
        }
    }
    pub fn zero(&self) -> V {
        match self {
            Ty::Int(w) if *w > 64 => V::X(cx().konst(*w, 0)),
            Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
                V::A(Rc::new((0..self.count()).map(|i| self.elem(i).zero()).collect()))
            }
            _ => V::C(0),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    PtrInt,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Func(usize),
    Ind(Opnd),
    Ext(Rc<str>),
    Intr(Rc<str>),
    Asm,
}
#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: Bin, w: u32, n: u32, a: Opnd, b: Opnd, d: u32 },
    Icmp { p: Pred, w: u32, n: u32, a: Opnd, b: Opnd, d: u32 },
    Cast { k: CastK, fw: u32, tw: u32, n: u32, a: Opnd, d: u32 },
    Bitcast { ft: Ty, tt: Ty, a: Opnd, d: u32 },
    Select { c: Opnd, cn: u32, a: Opnd, b: Opnd, ty: Ty, d: u32 },
    Load { ty: Ty, p: Opnd, d: u32, atomic: bool, ord: u8 }, // ord: 1 acquire, 2 release
    Store { ty: Ty, v: Opnd, p: Opnd, atomic: bool, ord: u8 },
    Gep { base: Opnd, off: i64, terms: Vec<(Opnd, u32, i64)>, d: u32 },
    Alloca { size: u64, count: Opnd, d: u32 },
    Call { f: Callee, args: Vec<(Opnd, Ty)>, rt: Ty, d: Option<u32>, normal: Option<u32> },
    ExtractValue { a: Opnd, idx: Vec<u32>, d: u32 },
    InsertValue { a: Opnd, v: Opnd, idx: Vec<u32>, d: u32 },
    ExtractElement { a: Opnd, i: Opnd, d: u32 },
    InsertElement { a: Opnd, v: Opnd, i: Opnd, d: u32 },
    Shuffle { a: Opnd, b: Opnd, mask: Vec<i64>, d: u32 },
    AtomicRmw { op: Rc<str>, ty: Ty, p: Opnd, v: Opnd, d: u32, ord: u8 },
    CmpXchg { ty: Ty, p: Opnd, c: Opnd, n: Opnd, d: u32, ord: u8, ford: u8 }, // ford: when it fails
    Mov { a: Opnd, d: u32 },
    Fence { ord: u8 },
    Br(u32),
    CondBr { c: Opnd, t: u32, f: u32 },
    Switch { w: u32, v: Opnd, def: u32, cases: Vec<(u64, u32)> },
    Ret(Option<Opnd>),
    Unreachable,
    Unsupported(Rc<str>),
}

pub struct Block {
    pub phis: HashMap<u32, Vec<(u32, Opnd)>>,
    pub insts: Vec<Inst>,
}
pub struct Body {
    pub blocks: Vec<Block>,
    pub nregs: usize,
    pub params: Vec<u32>,
}
pub struct Func {
    pub name: Rc<str>,
    pub span: Option<(usize, usize)>, // byte range of text, from the "define" line to closing brace
}
pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub constant: bool,
    pub init: Option<String>, // text of the initializer
    pub external: bool,
    pub objid: u64,
}

pub struct Module {
    pub text: Rc<str>,
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, usize>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, usize>,
    pub types: HashMap<String, Ty>,
    pub aliases: HashMap<String, String>,
}

pub const FUNC_BASE: u64 = 0x10_0000; // function addresses: FUNC_BASE + 16*i (object id 0 region: < 2^24*..)
pub const OBJ_SHIFT: u64 = 24;
pub const FIRST_OBJ: u64 = 16;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok<'a> {
    Id(&'a str),
    Loc(&'a str),  // %name
    Glo(&'a str),  // @name
    Num(&'a str),
    Str(&'a str),  // "..."
    CStr(&'a str), // c"..."
    Meta,          // !xxx
    Attr,          // #12
    P(u8),
    Nl,
    Eof,
}

/// Memory ordering at the lexer's position: 1 acquire, 2 release.
fn ordering(lx: &mut Lex) -> u8 {
    if lx.eat_id("syncscope") {
        while !matches!(lx.t, Tok::P(b')')) {
            lx.adv();
        }
        lx.adv();
    }
    match lx.t {
        Tok::Id("acquire") => 1,
        Tok::Id("release") => 2,
        Tok::Id("acq_rel" | "seq_cst") => 3,
        _ => 0,
    }
}

pub struct Lex<'a> {
    s: &'a [u8],
    src: &'a str,
    i: usize,
    pub t: Tok<'a>,
}

fn idch(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lex<'a> {
    pub fn new(src: &'a str) -> Self {
        let mut l = Lex { s: src.as_bytes(), src, i: 0, t: Tok::Eof };
        l.adv();
        l
    }
    fn quoted(&mut self) -> &'a str {
        // self.i at opening quote
        let st = self.i + 1;
        let mut j = st;
        while self.s[j] != b'"' {
            j += 1;
        }
        self.i = j + 1;
        &self.src[st..j]
    }
    pub fn adv(&mut self) -> Tok<'a> {
        let old = std::mem::replace(&mut self.t, Tok::Eof);
        loop {
            if self.i >= self.s.len() {
                self.t = Tok::Eof;
                return old;
            }
            let c = self.s[self.i];
            match c {
                b' ' | b'\t' | b'\r' => {
                    self.i += 1;
                    continue;
                }
                b'\n' => {
                    self.i += 1;
                    self.t = Tok::Nl;
                    return old;
                }
                b';' => {
                    while self.i < self.s.len() && self.s[self.i] != b'\n' {
                        self.i += 1;
                    }
                    continue;
                }
                b'%' | b'@' => {
                    self.i += 1;
                    let name = if self.s[self.i] == b'"' {
                        self.quoted()
                    } else {
                        let st = self.i;
                        while self.i < self.s.len() && idch(self.s[self.i]) {
                            self.i += 1;
                        }
                        &self.src[st..self.i]
                    };
                    self.t = if c == b'%' { Tok::Loc(name) } else { Tok::Glo(name) };
                    return old;
                }
                b'!' => {
                    self.i += 1;
                    if self.i < self.s.len() && self.s[self.i] == b'"' {
                        self.quoted();
                    }
                    while self.i < self.s.len() && idch(self.s[self.i]) {
                        self.i += 1;
                    }
                    self.t = Tok::Meta;
                    return old;
                }
                b'#' => {
                    self.i += 1;
                    while self.i < self.s.len() && idch(self.s[self.i]) {
                        self.i += 1;
                    }
                    self.t = Tok::Attr;
                    return old;
                }
                b'"' => {
                    let q = self.quoted();
                    self.t = Tok::Str(q);
                    return old;
                }
                b'c' if self.i + 1 < self.s.len() && self.s[self.i + 1] == b'"' => {
                    self.i += 1;
                    let q = self.quoted();
                    self.t = Tok::CStr(q);
                    return old;
                }
                _ => {}
            }
            if c == b'-' || c.is_ascii_digit() {
                let st = self.i;
                self.i += 1;
                while self.i < self.s.len()
                    && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'.' || self.s[self.i] == b'+')
                {
                    self.i += 1;
                }
                self.t = Tok::Num(&self.src[st..self.i]);
                return old;
            }
            if c.is_ascii_alphabetic() || c == b'_' || c == b'$' {
                let st = self.i;
                while self.i < self.s.len() && idch(self.s[self.i]) {
                    self.i += 1;
                }
                self.t = Tok::Id(&self.src[st..self.i]);
                return old;
            }
            if c == b'.' && self.src[self.i..].starts_with("...") {
                self.i += 3;
                self.t = Tok::Id("...");
                return old;
            }
            self.i += 1;
            self.t = Tok::P(c);
            return old;
        }
    }
    pub fn is_p(&self, c: u8) -> bool {
        self.t == Tok::P(c)
    }
    pub fn eat_p(&mut self, c: u8) -> bool {
        if self.is_p(c) {
            self.adv();
            true
        } else {
            false
        }
    }
    pub fn exp_p(&mut self, c: u8) {
        if !self.eat_p(c) {
            panic!("expected '{}' got {:?} near: {}", c as char, self.t, self.ctx());
        }
    }
    pub fn ctx(&self) -> &str {
        let a = self.i.saturating_sub(120);
        let b = (self.i + 80).min(self.src.len());
        self.src.get(a..b).unwrap_or("?")
    }
    pub fn is_id(&self, s: &str) -> bool {
        matches!(&self.t, Tok::Id(x) if *x == s)
    }
    pub fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.adv();
            true
        } else {
            false
        }
    }
    pub fn skip_balanced(&mut self) {
        // at '(' : skip through the matching ')'
        let mut d = 0;
        loop {
            match self.t {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        self.adv();
                        return;
                    }
                }
                Tok::Eof => panic!("unbalanced"),
                _ => {}
            }
            self.adv();
        }
    }
    pub fn skip_line(&mut self) {
        while self.t != Tok::Nl && self.t != Tok::Eof {
            self.adv();
        }
    }
    pub fn skip_nl(&mut self) {
        while self.t == Tok::Nl {
            self.adv();
        }
    }
}

fn int_ty(s: &str) -> Option<u32> {
    let b = s.as_bytes();
    if b.len() >= 2 && b[0] == b'i' && b[1..].iter().all(|c| c.is_ascii_digit()) {
        s[1..].parse().ok()
    } else {
        None
    }
}

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut out = Vec::with_capacity(b.len());
    let mut i = 0;
    let hx = |c: u8| (c as char).to_digit(16).unwrap() as u8;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                out.push(b'\\');
                i += 2;
            } else {
                out.push(hx(b[i + 1]) * 16 + hx(b[i + 2]));
                i += 3;
            }
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

pub fn parse_int(s: &str, w: u32) -> u128 {
    let m = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
    if let Some(h) = s.strip_prefix("0x") {
        return u128::from_str_radix(h, 16).unwrap_or(0) & m;
    }
    if let Some(n) = s.strip_prefix('-') {
        let v: u128 = n.parse().unwrap_or(0);
        v.wrapping_neg() & m
    } else if let Ok(v) = s.parse::<u128>() {
        v & m
    } else if let Ok(f) = s.parse::<f64>() {
        f.to_bits() as u128
    } else {
        panic!("bad int {}", s)
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text: Rc<str> = std::fs::read_to_string(path).expect("read ll").into();
        let mut m = Module {
            text: text.clone(),
            funcs: vec![],
            fidx: HashMap::new(),
            globals: vec![],
            gidx: HashMap::new(),
            types: HashMap::new(),
            aliases: HashMap::new(),
        };
        let t: &str = &text;
        let mut pos = 0;
        let mut glines: Vec<(usize, usize)> = vec![];
        while pos < t.len() {
            let e = t[pos..].find('\n').map(|k| pos + k).unwrap_or(t.len());
            let line = &t[pos..e];
            if line.starts_with("define ") {
                let end = t[pos..].find("\n}\n").map(|k| pos + k + 2).unwrap_or(t.len());
                let name = Self::fname(line);
                let id = m.funcs.len();
                m.fidx.insert(name.clone(), id);
                m.funcs.push(Func { name: name.as_str().into(), span: Some((pos, end)) });
                pos = end + 1;
                continue;
            } else if line.starts_with("declare ") {
                let name = Self::fname(line);
                let id = m.funcs.len();
                m.fidx.insert(name.clone(), id);
                m.funcs.push(Func { name: name.as_str().into(), span: None });
            } else if line.starts_with('@') {
                glines.push((pos, e));
            } else if line.starts_with('%') {
                // named type
                let mut lx = Lex::new(line);
                if let Tok::Loc(n) = lx.adv() {
                    lx.exp_p(b'=');
                    lx.eat_id("type");
                    let ty = if lx.is_id("opaque") { Ty::Other } else { m.ty(&mut lx) };
                    m.types.insert(n.to_string(), ty);
                }
            }
            pos = e + 1;
        }
        // globals: header parse
        for (a, b) in glines {
            let line = &t[a..b];
            let mut lx = Lex::new(line);
            let name = match lx.adv() {
                Tok::Glo(n) => n.to_string(),
                _ => continue,
            };
            lx.exp_p(b'=');
            let mut external = false;
            let mut constant = false;
            let mut alias = false;
            loop {
                match lx.t.clone() {
                    Tok::Id("external") | Tok::Id("extern_weak") => {
                        external = true;
                        lx.adv();
                    }
                    Tok::Id("constant") => {
                        constant = true;
                        lx.adv();
                        break;
                    }
                    Tok::Id("global") => {
                        lx.adv();
                        break;
                    }
                    Tok::Id("alias") => {
                        alias = true;
                        lx.adv();
                        break;
                    }
                    Tok::P(b'(') => lx.skip_balanced(),
                    Tok::Eof | Tok::Nl => break,
                    _ => {
                        lx.adv();
                    }
                }
            }
            if alias {
                let mut last = None;
                while lx.t != Tok::Eof {
                    if let Tok::Glo(n) = lx.t {
                        last = Some(n.to_string());
                    }
                    lx.adv();
                }
                if let Some(l) = last {
                    m.aliases.insert(name, l);
                }
                continue;
            }
            let ty = m.ty(&mut lx);
            let init = if external || lx.is_p(b',') || lx.t == Tok::Eof {
                None
            } else {
                // remaining text from the current token start; re-lex later
                Some(line.to_string())
            };
            let id = m.globals.len();
            m.gidx.insert(name.clone(), id);
            m.globals.push(Global { name, ty, constant, init, external, objid: FIRST_OBJ + id as u64 });
        }
        m
    }
    fn fname(line: &str) -> String {
        let k = line.find('@').unwrap();
        let rest = &line[k + 1..];
        if let Some(r) = rest.strip_prefix('"') {
            r[..r.find('"').unwrap()].to_string()
        } else {
            let e = rest.bytes().position(|c| !idch(c)).unwrap_or(rest.len());
            rest[..e].to_string()
        }
    }
    pub fn ty(&self, lx: &mut Lex) -> Ty {
        match lx.t.clone() {
            Tok::Id(s) => {
                lx.adv();
                if let Some(w) = int_ty(s) {
                    return Ty::Int(w);
                }
                match s {
                    "ptr" => {
                        if lx.is_id("addrspace") {
                            lx.adv();
                            lx.skip_balanced();
                        }
                        Ty::Ptr
                    }
                    "void" => Ty::Void,
                    "half" | "bfloat" => Ty::Float(16),
                    "float" => Ty::Float(32),
                    "double" => Ty::Float(64),
                    "fp128" => Ty::Float(128),
                    "x86_fp80" => Ty::Float(80),
                    "label" | "metadata" | "token" => Ty::Other,
                    _ => panic!("bad type {} near {}", s, lx.ctx()),
                }
            }
            Tok::Loc(n) => {
                lx.adv();
                self.types.get(n).cloned().unwrap_or(Ty::Other)
            }
            Tok::P(b'{') => {
                lx.adv();
                let mut v = vec![];
                while !lx.is_p(b'}') {
                    v.push(self.ty(lx));
                    lx.eat_p(b',');
                }
                lx.adv();
                Ty::Struct(Rc::new(v), false)
            }
            Tok::P(b'[') => {
                lx.adv();
                let n = match lx.adv() {
                    Tok::Num(n) => n.parse().unwrap(),
                    x => panic!("array len {:?}", x),
                };
                lx.eat_id("x");
                let t = self.ty(lx);
                lx.exp_p(b']');
                Ty::Array(n, Rc::new(t))
            }
            Tok::P(b'<') => {
                lx.adv();
                if lx.eat_p(b'{') {
                    let mut v = vec![];
                    while !lx.is_p(b'}') {
                        v.push(self.ty(lx));
                        lx.eat_p(b',');
                    }
                    lx.adv();
                    lx.exp_p(b'>');
                    return Ty::Struct(Rc::new(v), true);
                }
                let n = match lx.adv() {
                    Tok::Num(n) => n.parse().unwrap(),
                    x => panic!("vec len {:?}", x),
                };
                lx.eat_id("x");
                let t = self.ty(lx);
                lx.exp_p(b'>');
                Ty::Vector(n, Rc::new(t))
            }
            x => panic!("bad type tok {:?} near {}", x, lx.ctx()),
        }
    }
    pub fn sym_addr(&self, n: &str) -> u64 {
        let n = self.aliases.get(n).map(|s| s.as_str()).unwrap_or(n);
        if let Some(i) = self.fidx.get(n) {
            // extern_weak functions are absent (null)
            let f = &self.funcs[*i];
            if f.span.is_none() && WEAK_NULL.contains(&&*f.name) {
                return 0;
            }
            return FUNC_BASE + 16 * *i as u64;
        }
        if let Some(i) = self.gidx.get(n) {
            return self.globals[*i].objid << OBJ_SHIFT;
        }
        panic!("unknown symbol @{}", n)
    }
    /// Parse a constant of type `ty`.
    pub fn konst(&self, lx: &mut Lex, ty: &Ty) -> V {
        match lx.t.clone() {
            Tok::Num(s) => {
                lx.adv();
                match ty {
                    Ty::Int(w) if *w > 64 => V::X(cx().konst(*w, parse_int(s, *w))),
                    Ty::Int(w) => V::C(parse_int(s, *w) as u64),
                    _ => V::C(parse_int(s, 64) as u64),
                }
            }
            Tok::Glo(n) => {
                lx.adv();
                V::C(self.sym_addr(n))
            }
            Tok::CStr(s) => {
                lx.adv();
                V::A(Rc::new(unescape(s).into_iter().map(|b| V::C(b as u64)).collect()))
            }
            Tok::Id(s) => {
                lx.adv();
                match s {
                    "true" => V::C(1),
                    "false" => V::C(0),
                    "null" | "none" => V::C(0),
                    "undef" | "poison" | "zeroinitializer" => ty.zero(),
                    "splat" => {
                        lx.exp_p(b'(');
                        let t = self.ty(lx);
                        let v = self.konst(lx, &t);
                        lx.exp_p(b')');
                        V::A(Rc::new(vec![v; ty.count()]))
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "trunc" | "ptrtoaddr" => {
                        lx.exp_p(b'(');
                        let t = self.ty(lx);
                        let v = self.konst(lx, &t);
                        lx.eat_id("to");
                        let t2 = self.ty(lx);
                        lx.exp_p(b')');
                        match v {
                            V::C(c) if t2.width() < 64 && t2.width() > 0 => V::C(c & ((1u64 << t2.width()) - 1)),
                            v => v,
                        }
                    }
                    "getelementptr" => {
                        while matches!(lx.t, Tok::Id(_)) {
                            let isr = lx.is_id("inrange");
                            lx.adv();
                            if isr && lx.is_p(b'(') {
                                lx.skip_balanced();
                            }
                        }
                        lx.exp_p(b'(');
                        let t = self.ty(lx);
                        lx.exp_p(b',');
                        let bt = self.ty(lx);
                        let base = self.konst(lx, &bt);
                        let mut off = match base {
                            V::C(c) => c,
                            _ => panic!("gep const base"),
                        };
                        let mut cur = t;
                        let mut first = true;
                        while lx.eat_p(b',') {
                            while matches!(lx.t, Tok::Id("inrange")) {
                                lx.adv();
                            }
                            let it = self.ty(lx);
                            let iv = match self.konst(lx, &it) {
                                V::C(c) => sx(c, it.width()),
                                _ => panic!("gep const idx"),
                            };
                            if first {
                                off = off.wrapping_add((cur.size() as i64).wrapping_mul(iv) as u64);
                                first = false;
                            } else {
                                off = off.wrapping_add(cur.field_off(iv as usize));
                                cur = cur.elem(iv as usize);
                            }
                        }
                        lx.exp_p(b')');
                        V::C(off)
                    }
                    "add" | "sub" | "xor" | "mul" => {
                        while matches!(lx.t, Tok::Id(_)) {
                            lx.adv();
                        }
                        lx.exp_p(b'(');
                        let t = self.ty(lx);
                        let a = self.konst(lx, &t);
                        lx.exp_p(b',');
                        let t2 = self.ty(lx);
                        let b = self.konst(lx, &t2);
                        lx.exp_p(b')');
                        match (a, b) {
                            (V::C(a), V::C(b)) => {
                                let r = match s {
                                    "add" => a.wrapping_add(b),
                                    "sub" => a.wrapping_sub(b),
                                    "mul" => a.wrapping_mul(b),
                                    _ => a ^ b,
                                };
                                let w = t.width();
                                V::C(if w < 64 { r & ((1u64 << w) - 1) } else { r })
                            }
                            _ => panic!("const expr"),
                        }
                    }
                    "blockaddress" | "dso_local_equivalent" | "no_cfi" => panic!("const {}", s),
                    _ => panic!("bad const {} near {}", s, lx.ctx()),
                }
            }
            Tok::P(b'{') | Tok::P(b'[') => {
                let close = if lx.is_p(b'{') { b'}' } else { b']' };
                lx.adv();
                let mut v = vec![];
                while !lx.is_p(close) {
                    let t = self.ty(lx);
                    v.push(self.konst(lx, &t));
                    lx.eat_p(b',');
                }
                lx.adv();
                V::A(Rc::new(v))
            }
            Tok::P(b'<') => {
                lx.adv();
                let st = lx.eat_p(b'{');
                let mut v = vec![];
                while !lx.is_p(if st { b'}' } else { b'>' }) {
                    let t = self.ty(lx);
                    v.push(self.konst(lx, &t));
                    lx.eat_p(b',');
                }
                lx.adv();
                if st {
                    lx.exp_p(b'>');
                }
                V::A(Rc::new(v))
            }
            x => panic!("bad const tok {:?} near {}", x, lx.ctx()),
        }
    }
    pub fn global_init(&self, g: &Global) -> Option<V> {
        let line = g.init.as_ref()?;
        let mut lx = Lex::new(line);
        lx.adv();
        lx.exp_p(b'=');
        loop {
            match lx.t.clone() {
                Tok::Id("constant") | Tok::Id("global") => {
                    lx.adv();
                    break;
                }
                Tok::P(b'(') => lx.skip_balanced(),
                _ => {
                    lx.adv();
                }
            }
        }
        let ty = self.ty(&mut lx);
        Some(self.konst(&mut lx, &ty))
    }
    pub fn body(&self, fi: usize) -> Body {
        let (a, b) = self.funcs[fi].span.expect("no body");
        let text = self.text.clone();
        let mut p = FnParse { m: self, regs: HashMap::new(), blk: HashMap::new(), nblk: 0 };
        p.parse(&text[a..b])
    }
}

pub const WEAK_NULL: &[&str] = &[
    "__cxa_thread_atexit_impl",
    "gettid",
    "statx",
    "getrandom",
    "__pthread_get_minstacksize",
    "copy_file_range",
];

pub fn sx(c: u64, w: u32) -> i64 {
    if w == 0 || w >= 64 {
        c as i64
    } else {
        ((c << (64 - w)) as i64) >> (64 - w)
    }
}

struct FnParse<'m> {
    m: &'m Module,
    regs: HashMap<String, u32>,
    blk: HashMap<String, u32>,
    nblk: u32,
}

impl<'m> FnParse<'m> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let k = self.regs.len() as u32;
        self.regs.insert(n.to_string(), k);
        k
    }
    fn block(&mut self, n: &str) -> u32 {
        if let Some(r) = self.blk.get(n) {
            return *r;
        }
        let k = self.nblk;
        self.nblk += 1;
        self.blk.insert(n.to_string(), k);
        k
    }
    fn val(&mut self, lx: &mut Lex, ty: &Ty) -> Opnd {
        if let Tok::Loc(n) = lx.t {
            lx.adv();
            return Opnd::R(self.reg(n));
        }
        Opnd::K(self.m.konst(lx, ty))
    }
    fn tval(&mut self, lx: &mut Lex) -> (Ty, Opnd) {
        let t = self.m.ty(lx);
        let v = self.val(lx, &t);
        (t, v)
    }
    fn skip_attrs_to_type(&mut self, lx: &mut Lex) {
        loop {
            match lx.t.clone() {
                Tok::Id(s) => {
                    if int_ty(s).is_some()
                        || matches!(s, "ptr" | "void" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "bfloat")
                    {
                        return;
                    }
                    lx.adv();
                    if lx.is_p(b'(') {
                        lx.skip_balanced();
                    }
                }
                Tok::Num(_) | Tok::Str(_) | Tok::Attr => {
                    lx.adv();
                    if lx.is_p(b'=') {
                        lx.adv();
                        lx.adv();
                    }
                }
                _ => return,
            }
        }
    }
    fn skip_attrs_to_value(&mut self, lx: &mut Lex) {
        loop {
            match lx.t.clone() {
                Tok::Id(s) => match s {
                    "true" | "false" | "null" | "none" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "splat"
                    | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "add" | "sub" | "xor" | "mul" | "blockaddress"
                    | "trunc" | "asm" | "addrspacecast" => return,
                    "align" => {
                        lx.adv();
                        if lx.is_p(b'(') {
                            lx.skip_balanced();
                        } else {
                            lx.adv();
                        }
                    }
                    _ => {
                        lx.adv();
                        if lx.is_p(b'(') {
                            lx.skip_balanced();
                        }
                    }
                },
                Tok::Str(_) => {
                    lx.adv();
                    if lx.is_p(b'=') {
                        lx.adv();
                        lx.adv();
                    }
                }
                _ => return,
            }
        }
    }
    fn label(&mut self, lx: &mut Lex) -> u32 {
        lx.eat_id("label");
        match lx.adv() {
            Tok::Loc(n) => self.block(n),
            x => panic!("label {:?}", x),
        }
    }
    fn parse(&mut self, text: &str) -> Body {
        let mut lx = Lex::new(text);
        // header: find '@name' then params
        while !matches!(lx.t, Tok::Glo(_)) {
            lx.adv();
        }
        lx.adv();
        lx.exp_p(b'(');
        let mut params = vec![];
        let mut unnamed = 0;
        while !lx.is_p(b')') {
            if lx.is_id("...") {
                lx.adv();
                continue;
            }
            let _t = self.m.ty(&mut lx);
            // attrs
            loop {
                match lx.t.clone() {
                    Tok::Loc(_) | Tok::P(b',') | Tok::P(b')') => break,
                    Tok::P(b'(') => lx.skip_balanced(),
                    _ => {
                        lx.adv();
                    }
                }
            }
            if let Tok::Loc(n) = lx.t {
                lx.adv();
                if n.bytes().all(|c| c.is_ascii_digit()) {
                    unnamed += 1;
                }
                let r = self.reg(n);
                params.push(r);
            } else {
                let n = format!("{}", unnamed);
                unnamed += 1;
                let r = self.reg(&n);
                params.push(r);
            }
            lx.eat_p(b',');
        }
        while lx.t != Tok::Nl {
            lx.adv();
        }
        lx.skip_nl();
        // body
        let mut blocks: Vec<(u32, Vec<(u32, Vec<(u32, Opnd)>)>, Vec<Inst>)> = vec![];
        let mut first = true;
        loop {
            lx.skip_nl();
            if lx.is_p(b'}') || lx.t == Tok::Eof {
                break;
            }
            // label?
            let save_i = lx.i;
            let save_t = lx.t.clone();
            let mut lab = None;
            match lx.t.clone() {
                Tok::Id(s) | Tok::Num(s) | Tok::Str(s) => {
                    lx.adv();
                    if lx.is_p(b':') {
                        lab = Some(s.to_string());
                        lx.skip_line();
                    } else {
                        lx.i = save_i;
                        lx.t = save_t;
                    }
                }
                _ => {}
            }
            if let Some(l) = lab {
                let b = self.block(&l);
                blocks.push((b, vec![], vec![]));
                first = false;
                continue;
            }
            if first {
                let b = self.block(&format!("{}", unnamed));
                blocks.push((b, vec![], vec![]));
                first = false;
            }
            self.inst(&mut lx, blocks.last_mut().unwrap());
            lx.skip_line();
        }
        let n = self.nblk as usize;
        // remap so that entry block is index 0 (it is: first declared) – verify
        assert_eq!(blocks[0].0, 0, "entry block index");
        let mut out: Vec<Block> = (0..n).map(|_| Block { phis: HashMap::new(), insts: vec![Inst::Unreachable] }).collect();
        for (b, phis, insts) in blocks {
            let mut ph: HashMap<u32, Vec<(u32, Opnd)>> = HashMap::new();
            for (d, inc) in phis {
                for (pb, o) in inc {
                    let v = ph.entry(pb).or_default();
                    // duplicate predecessor entries carry the same value
                    if v.iter().any(|(d2, _)| *d2 == d) {
                        continue;
                    }
                    v.push((d, o));
                }
            }
            out[b as usize] = Block { phis: ph, insts };
        }
        Body { blocks: out, nregs: self.regs.len(), params }
    }
    fn inst(&mut self, lx: &mut Lex, blk: &mut (u32, Vec<(u32, Vec<(u32, Opnd)>)>, Vec<Inst>)) {
        let mut d: Option<u32> = None;
        if let Tok::Loc(n) = lx.t {
            lx.adv();
            lx.exp_p(b'=');
            d = Some(self.reg(n));
        }
        let op = match lx.adv() {
            Tok::Id(s) => s,
            x => panic!("inst tok {:?} near {}", x, lx.ctx()),
        };
        let m = self.m;
        let bin = match op {
            "add" => Some(Bin::Add),
            "sub" => Some(Bin::Sub),
            "mul" => Some(Bin::Mul),
            "udiv" => Some(Bin::UDiv),
            "sdiv" => Some(Bin::SDiv),
            "urem" => Some(Bin::URem),
            "srem" => Some(Bin::SRem),
            "and" => Some(Bin::And),
            "or" => Some(Bin::Or),
            "xor" => Some(Bin::Xor),
            "shl" => Some(Bin::Shl),
            "lshr" => Some(Bin::LShr),
            "ashr" => Some(Bin::AShr),
            _ => None,
        };
        if let Some(op) = bin {
            while matches!(lx.t, Tok::Id("nuw" | "nsw" | "exact" | "disjoint")) {
                lx.adv();
            }
            let (t, a) = self.tval(lx);
            lx.exp_p(b',');
            let b = self.val(lx, &t);
            blk.2.push(Inst::Bin { op, w: t.width(), n: t.lanes(), a, b, d: d.unwrap() });
            return;
        }
        let i = match op {
            "icmp" => {
                lx.eat_id("samesign");
                let p = match lx.adv() {
                    Tok::Id(s) => match s {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        _ => panic!("pred"),
                    },
                    _ => panic!("pred"),
                };
                let (t, a) = self.tval(lx);
                lx.exp_p(b',');
                let b = self.val(lx, &t);
                Inst::Icmp { p, w: t.width(), n: t.lanes(), a, b, d: d.unwrap() }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "addrspacecast" => {
                while matches!(lx.t, Tok::Id("nuw" | "nsw" | "nneg")) {
                    lx.adv();
                }
                let (ft, a) = self.tval(lx);
                lx.eat_id("to");
                let tt = m.ty(lx);
                if op == "bitcast" {
                    Inst::Bitcast { ft, tt, a, d: d.unwrap() }
                } else {
                    let k = match op {
                        "trunc" => CastK::Trunc,
                        "zext" => CastK::ZExt,
                        "sext" => CastK::SExt,
                        _ => CastK::PtrInt,
                    };
                    Inst::Cast { k, fw: ft.width(), tw: tt.width(), n: ft.lanes(), a, d: d.unwrap() }
                }
            }
            "freeze" => {
                let (_t, a) = self.tval(lx);
                Inst::Mov { a, d: d.unwrap() }
            }
            "select" => {
                self.skip_attrs_fast(lx);
                let (ct, c) = self.tval(lx);
                lx.exp_p(b',');
                let (t, a) = self.tval(lx);
                lx.exp_p(b',');
                let (_, b) = self.tval(lx);
                Inst::Select { c, cn: ct.lanes(), a, b, ty: t, d: d.unwrap() }
            }
            "load" => {
                let mut atomic = false;
                while matches!(lx.t, Tok::Id("atomic" | "volatile")) {
                    atomic |= lx.is_id("atomic");
                    lx.adv();
                }
                let t = m.ty(lx);
                lx.exp_p(b',');
                let (_, p) = self.tval(lx);
                Inst::Load { ty: t, p, d: d.unwrap(), atomic, ord: ordering(lx) }
            }
            "store" => {
                let mut atomic = false;
                while matches!(lx.t, Tok::Id("atomic" | "volatile")) {
                    atomic |= lx.is_id("atomic");
                    lx.adv();
                }
                let (t, v) = self.tval(lx);
                lx.exp_p(b',');
                let (_, p) = self.tval(lx);
                Inst::Store { ty: t, v, p, atomic, ord: ordering(lx) }
            }
            "getelementptr" => {
                while matches!(lx.t, Tok::Id("inbounds" | "nuw" | "nusw")) {
                    lx.adv();
                }
                if lx.is_id("inrange") {
                    lx.adv();
                    lx.skip_balanced();
                }
                let t = m.ty(lx);
                lx.exp_p(b',');
                let (_, base) = self.tval(lx);
                let mut off: i64 = 0;
                let mut terms = vec![];
                let mut cur = t;
                let mut first = true;
                while lx.is_p(b',') {
                    lx.adv();
                    if matches!(lx.t, Tok::Meta) {
                        break;
                    }
                    let (it, iv) = self.tval(lx);
                    if first {
                        let sc = cur.size() as i64;
                        match iv {
                            Opnd::K(V::C(c)) => off = off.wrapping_add(sc.wrapping_mul(sx(c, it.width()))),
                            o => terms.push((o, it.width(), sc)),
                        }
                        first = false;
                    } else {
                        match iv {
                            Opnd::K(V::C(c)) => {
                                let ix = sx(c, it.width());
                                if let Ty::Struct(..) = cur {
                                    off = off.wrapping_add(cur.field_off(ix as usize) as i64);
                                    cur = cur.elem(ix as usize);
                                } else {
                                    let e = cur.elem(0);
                                    off = off.wrapping_add(ix.wrapping_mul(e.size() as i64));
                                    cur = e;
                                }
                            }
                            o => {
                                let e = cur.elem(0);
                                terms.push((o, it.width(), e.size() as i64));
                                cur = e;
                            }
                        }
                    }
                }
                Inst::Gep { base, off, terms, d: d.unwrap() }
            }
            "alloca" => {
                lx.eat_id("inalloca");
                let t = m.ty(lx);
                let mut count = Opnd::K(V::C(1));
                if lx.is_p(b',') {
                    lx.adv();
                    if !lx.is_id("align") && !lx.is_id("addrspace") && !matches!(lx.t, Tok::Meta) {
                        count = self.tval(lx).1;
                    }
                }
                Inst::Alloca { size: t.size(), count, d: d.unwrap() }
            }
            "tail" | "musttail" | "notail" => {
                lx.eat_id("call");
                self.call(lx, d, false)
            }
            "call" => self.call(lx, d, false),
            "invoke" => self.call(lx, d, true),
            "extractvalue" => {
                let (_, a) = self.tval(lx);
                let mut idx = vec![];
                while lx.eat_p(b',') {
                    match lx.adv() {
                        Tok::Num(n) => idx.push(n.parse().unwrap()),
                        _ => break,
                    }
                }
                Inst::ExtractValue { a, idx, d: d.unwrap() }
            }
            "insertvalue" => {
                let (_, a) = self.tval(lx);
                lx.exp_p(b',');
                let (_, v) = self.tval(lx);
                let mut idx = vec![];
                while lx.eat_p(b',') {
                    match lx.adv() {
                        Tok::Num(n) => idx.push(n.parse().unwrap()),
                        _ => break,
                    }
                }
                Inst::InsertValue { a, v, idx, d: d.unwrap() }
            }
            "extractelement" => {
                let (_, a) = self.tval(lx);
                lx.exp_p(b',');
                let (_, i) = self.tval(lx);
                Inst::ExtractElement { a, i, d: d.unwrap() }
            }
            "insertelement" => {
                let (_, a) = self.tval(lx);
                lx.exp_p(b',');
                let (_, v) = self.tval(lx);
                lx.exp_p(b',');
                let (_, i) = self.tval(lx);
                Inst::InsertElement { a, v, i, d: d.unwrap() }
            }
            "shufflevector" => {
                let (_, a) = self.tval(lx);
                lx.exp_p(b',');
                let (_, b) = self.tval(lx);
                lx.exp_p(b',');
                let (_, mk) = self.tval(lx);
                let mask = match mk {
                    Opnd::K(V::A(v)) => v.iter().map(|x| if let V::C(c) = x { *c as i64 } else { 0 }).collect(),
                    _ => panic!("shuffle mask"),
                };
                Inst::Shuffle { a, b, mask, d: d.unwrap() }
            }
            "atomicrmw" => {
                lx.eat_id("volatile");
                let o = match lx.adv() {
                    Tok::Id(s) => s,
                    _ => panic!("rmw"),
                };
                let (_, p) = self.tval(lx);
                lx.exp_p(b',');
                let (t, v) = self.tval(lx);
                Inst::AtomicRmw { op: o.into(), ty: t, p, v, d: d.unwrap(), ord: ordering(lx) }
            }
            "cmpxchg" => {
                while matches!(lx.t, Tok::Id("weak" | "volatile")) {
                    lx.adv();
                }
                let (_, p) = self.tval(lx);
                lx.exp_p(b',');
                let (t, c) = self.tval(lx);
                lx.exp_p(b',');
                let (_, n) = self.tval(lx);
                let ord = ordering(lx);
                lx.adv();
                Inst::CmpXchg { ty: t, p, c, n, d: d.unwrap(), ord, ford: ordering(lx) }
            }
            "fence" => Inst::Fence { ord: ordering(lx) },
            "phi" => {
                while matches!(lx.t, Tok::Id("fast" | "nnan" | "ninf" | "nsz")) {
                    lx.adv();
                }
                let t = m.ty(lx);
                let mut inc = vec![];
                loop {
                    lx.exp_p(b'[');
                    let v = self.val(lx, &t);
                    lx.exp_p(b',');
                    let b = match lx.adv() {
                        Tok::Loc(n) => self.block(n),
                        x => panic!("phi blk {:?}", x),
                    };
                    lx.exp_p(b']');
                    inc.push((b, v));
                    if lx.is_p(b',') {
                        lx.adv();
                        if !lx.is_p(b'[') {
                            break;
                        }
                    } else {
                        break;
                    }
                }
                blk.1.push((d.unwrap(), inc));
                return;
            }
            "br" => {
                if lx.is_id("label") {
                    Inst::Br(self.label(lx))
                } else {
                    let (_, c) = self.tval(lx);
                    lx.exp_p(b',');
                    let t = self.label(lx);
                    lx.exp_p(b',');
                    let f = self.label(lx);
                    Inst::CondBr { c, t, f }
                }
            }
            "switch" => {
                let (t, v) = self.tval(lx);
                lx.exp_p(b',');
                let def = self.label(lx);
                lx.exp_p(b'[');
                let mut cases = vec![];
                loop {
                    lx.skip_nl();
                    if lx.is_p(b']') {
                        break;
                    }
                    let (_, k) = self.tval(lx);
                    lx.exp_p(b',');
                    let b = self.label(lx);
                    match k {
                        Opnd::K(V::C(c)) => cases.push((c, b)),
                        _ => panic!("switch case"),
                    }
                }
                lx.adv();
                Inst::Switch { w: t.width(), v, def, cases }
            }
            "ret" => {
                if lx.is_id("void") {
                    Inst::Ret(None)
                } else {
                    Inst::Ret(Some(self.tval(lx).1))
                }
            }
            "unreachable" => Inst::Unreachable,
            "landingpad" => {
                // skip the clause lines
                lx.skip_line();
                loop {
                    let (si, st) = (lx.i, lx.t.clone());
                    lx.skip_nl();
                    if matches!(lx.t, Tok::Id("cleanup" | "catch" | "filter")) {
                        lx.skip_line();
                    } else {
                        lx.i = si;
                        lx.t = st;
                        break;
                    }
                }
                Inst::Unsupported("landingpad".into())
            }
            "resume" => Inst::Unsupported("resume".into()),
            other => {
                if let Some(dd) = d {
                    let _ = dd;
                }
                lx.skip_line();
                Inst::Unsupported(other.into())
            }
        };
        blk.2.push(i);
    }
    fn skip_attrs_fast(&mut self, lx: &mut Lex) {
        while matches!(lx.t, Tok::Id("fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc")) {
            lx.adv();
        }
    }
    fn call(&mut self, lx: &mut Lex, d: Option<u32>, invoke: bool) -> Inst {
        self.skip_attrs_to_type(lx);
        let rt = self.m.ty(lx);
        if lx.is_p(b'(') {
            // explicit function type
            lx.skip_balanced();
        }
        let mut asm = false;
        let callee = match lx.t.clone() {
            Tok::Glo(n) => {
                lx.adv();
                let n = self.m.aliases.get(n).map(|s| s.as_str()).unwrap_or(n);
                if n.starts_with("llvm.") {
                    Callee::Intr(n.into())
                } else if let Some(i) = self.m.fidx.get(n) {
                    if self.m.funcs[*i].span.is_some() {
                        Callee::Func(*i)
                    } else {
                        Callee::Ext(n.into())
                    }
                } else {
                    Callee::Ext(n.into())
                }
            }
            Tok::Loc(n) => {
                lx.adv();
                Callee::Ind(Opnd::R(self.reg(n)))
            }
            Tok::Id("asm") => {
                asm = true;
                while !lx.is_p(b'(') {
                    lx.adv();
                }
                Callee::Asm
            }
            _ => {
                let v = self.m.konst(lx, &Ty::Ptr);
                Callee::Ind(Opnd::K(v))
            }
        };
        let _ = asm;
        lx.exp_p(b'(');
        let mut args = vec![];
        let dbg = matches!(&callee, Callee::Intr(n) if n.starts_with("llvm.dbg") || n.starts_with("llvm.experimental.noalias"));
        if dbg {
            let mut depth = 1;
            while depth > 0 {
                match lx.t {
                    Tok::P(b'(') => depth += 1,
                    Tok::P(b')') => depth -= 1,
                    _ => {}
                }
                lx.adv();
            }
        } else {
            while !lx.is_p(b')') {
                let t = self.m.ty(lx);
                self.skip_attrs_to_value(lx);
                if matches!(t, Ty::Other) {
                    // metadata operand
                    while !lx.is_p(b',') && !lx.is_p(b')') {
                        if lx.is_p(b'(') {
                            lx.skip_balanced();
                        } else {
                            lx.adv();
                        }
                    }
                    args.push((Opnd::K(V::C(0)), t));
                } else {
                    let v = self.val(lx, &t);
                    args.push((v, t));
                }
                lx.eat_p(b',');
            }
            lx.adv();
        }
        let mut normal = None;
        if invoke {
            // skip to "to label"
            loop {
                match lx.t.clone() {
                    Tok::Id("to") => {
                        lx.adv();
                        if lx.is_id("label") {
                            break;
                        }
                    }
                    Tok::Eof => panic!("invoke"),
                    _ => {
                        lx.adv();
                    }
                }
            }
            normal = Some(self.label(lx));
        }
        Inst::Call { f: callee, args, rt, d, normal }
    }
}
