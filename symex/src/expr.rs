//! Hash-consed bit-vector expressions with local simplification.
use crate::ir::Bin;
use std::cell::UnsafeCell;
use std::collections::HashMap;
use std::rc::Rc;

pub type Eid = u32;

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    X(Eid),
    A(Rc<Vec<V>>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
    Concat,  // a = high, b = low
    Extract, // a, b = low bit index
    ZExt,
    SExt,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

#[derive(Default)]
pub struct FxH(u64);
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
}
#[derive(Clone, Default)]
pub struct FxB;
impl std::hash::BuildHasher for FxB {
    type Hasher = FxH;
    fn build_hasher(&self) -> FxH {
        FxH(0)
    }
}
pub type FxMap<K, T> = HashMap<K, T, FxB>;

pub struct Cx {
    pub nodes: Vec<Node>,
    pub sup: Vec<u128>,
    map: FxMap<Node, Eid>,
    consts: Vec<u128>,
    cmap: HashMap<(u32, u128), Eid>,
    pub var_w: Vec<u32>, // var index -> width
    pub var_ids: Vec<Eid>,
    vmap: HashMap<(u32, u32), Eid>,
    ev_epoch: Vec<u32>,
    ev_val: Vec<u128>,
    pub next_epoch: u32,
}

struct G(UnsafeCell<Option<Cx>>);
unsafe impl Sync for G {}
static CX: G = G(UnsafeCell::new(None));

#[inline]
pub fn cx() -> &'static mut Cx {
    unsafe {
        let p = &mut *CX.0.get();
        if p.is_none() {
            *p = Some(Cx::new());
        }
        p.as_mut().unwrap_unchecked()
    }
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    (match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (sext(a, w) >> s) as u128
        }
        _ => unreachable!(),
    }) & m
}

pub fn binop(b: Bin) -> Op {
    match b {
        Bin::Add => Op::Add,
        Bin::Sub => Op::Sub,
        Bin::Mul => Op::Mul,
        Bin::UDiv => Op::UDiv,
        Bin::SDiv => Op::SDiv,
        Bin::URem => Op::URem,
        Bin::SRem => Op::SRem,
        Bin::And => Op::And,
        Bin::Or => Op::Or,
        Bin::Xor => Op::Xor,
        Bin::Shl => Op::Shl,
        Bin::LShr => Op::LShr,
        Bin::AShr => Op::AShr,
    }
}

impl Cx {
    fn new() -> Cx {
        let mut c = Cx {
            nodes: vec![],
            sup: vec![],
            map: FxMap::default(),
            consts: vec![],
            cmap: HashMap::new(),
            var_w: vec![],
            var_ids: vec![],
            vmap: HashMap::new(),
            ev_epoch: vec![],
            ev_val: vec![],
            next_epoch: 1,
        };
        c.konst(1, 0); // id 0 = false
        c.konst(1, 1); // id 1 = true
        c
    }
    pub fn konst(&mut self, w: u32, v: u128) -> Eid {
        let v = v & mask(w);
        if let Some(e) = self.cmap.get(&(w, v)) {
            return *e;
        }
        let id = self.nodes.len() as u32;
        let ci = self.consts.len() as u32;
        self.consts.push(v);
        self.nodes.push(Node { op: Op::Const, w: w as u8, a: ci, b: 0, c: 0 });
        self.sup.push(0);
        self.ev_epoch.push(0);
        self.ev_val.push(v);
        self.cmap.insert((w, v), id);
        id
    }
    /// The k-th nondeterministic value of a path, of width w. Shared between paths.
    pub fn var(&mut self, k: u32, w: u32) -> Eid {
        if let Some(e) = self.vmap.get(&(k, w)) {
            return *e;
        }
        let vi = self.var_w.len() as u32;
        assert!(vi < 128, "too many symbolic variables");
        self.var_w.push(w);
        let id = self.nodes.len() as u32;
        self.nodes.push(Node { op: Op::Var, w: w as u8, a: vi, b: k, c: 0 });
        self.sup.push(1u128 << vi);
        self.ev_epoch.push(0);
        self.ev_val.push(0);
        self.vmap.insert((k, w), id);
        self.var_ids.push(id);
        id
    }
    #[inline]
    pub fn n(&self, e: Eid) -> Node {
        self.nodes[e as usize]
    }
    #[inline]
    pub fn w(&self, e: Eid) -> u32 {
        self.nodes[e as usize].w as u32
    }
    #[inline]
    pub fn cval(&self, e: Eid) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    fn intern(&mut self, n: Node) -> Eid {
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let id = self.nodes.len() as u32;
        let s = match n.op {
            Op::Ite => self.sup[n.a as usize] | self.sup[n.b as usize] | self.sup[n.c as usize],
            Op::Extract | Op::ZExt | Op::SExt => self.sup[n.a as usize],
            _ => self.sup[n.a as usize] | self.sup[n.b as usize],
        };
        self.nodes.push(n);
        self.sup.push(s);
        self.ev_epoch.push(0);
        self.ev_val.push(0);
        self.map.insert(n, id);
        id
    }
    fn raw(&mut self, op: Op, w: u32, a: Eid, b: Eid, c: Eid) -> Eid {
        self.intern(Node { op, w: w as u8, a, b, c })
    }
    pub fn not(&mut self, a: Eid) -> Eid {
        debug_assert_eq!(self.w(a), 1);
        let n = self.n(a);
        if n.op == Op::Const {
            return if a == 0 { 1 } else { 0 };
        }
        if n.op == Op::Xor && n.b == 1 {
            return n.a;
        }
        self.raw(Op::Xor, 1, a, 1, 0)
    }
    /// ite with both leaves constant?
    fn ite_consts(&self, a: Eid) -> Option<(Eid, u128, u128)> {
        let n = self.n(a);
        if n.op == Op::Ite {
            if let (Some(x), Some(y)) = (self.cval(n.b), self.cval(n.c)) {
                return Some((n.a, x, y));
            }
        }
        None
    }
    pub fn bin(&mut self, op: Op, mut a: Eid, mut b: Eid) -> Eid {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(w, fold(op, w, x, y));
        }
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor);
        if comm && (ca.is_some() || (cb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
        }
        let cb = self.cval(b);
        let m = mask(w);
        // bool not normal form
        if op == Op::Xor && w == 1 {
            if cb == Some(1) {
                return self.not(a);
            }
        }
        if let Some(k) = cb {
            match op {
                Op::Add | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if k == 0 => return a,
                Op::Sub => {
                    let nk = self.konst(w, k.wrapping_neg());
                    return self.bin(Op::Add, a, nk);
                }
                Op::And if k == 0 => return b,
                Op::And if k == m => return a,
                Op::Or if k == m => return b,
                Op::Mul if k == 0 => return b,
                Op::Mul | Op::UDiv if k == 1 => return a,
                Op::Mul if k.is_power_of_two() => {
                    let s = self.konst(w, k.trailing_zeros() as u128);
                    return self.bin(Op::Shl, a, s);
                }
                Op::UDiv if k.is_power_of_two() => {
                    let s = self.konst(w, k.trailing_zeros() as u128);
                    return self.bin(Op::LShr, a, s);
                }
                Op::URem if k.is_power_of_two() => {
                    let s = self.konst(w, k - 1);
                    return self.bin(Op::And, a, s);
                }
                Op::Shl => {
                    if k >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let k = k as u32;
                    let hi = self.extract(a, 0, w - k);
                    let z = self.konst(k, 0);
                    return self.concat(hi, z);
                }
                Op::LShr => {
                    if k >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let k = k as u32;
                    let hi = self.extract(a, k, w - k);
                    return self.zext(hi, w);
                }
                _ => {}
            }
            // reassociate
            let na = self.n(a);
            if na.op == op && matches!(op, Op::Add | Op::And | Op::Or | Op::Xor) {
                if let Some(k2) = self.cval(na.b) {
                    let kk = self.konst(w, fold(op, w, k2, k));
                    return self.bin(op, na.a, kk);
                }
            }
            if let Some((c, x, y)) = self.ite_consts(a) {
                let kx = self.konst(w, fold(op, w, x, k));
                let ky = self.konst(w, fold(op, w, y, k));
                return self.ite(c, kx, ky);
            }
            if op == Op::And {
                // and with low mask 2^j-1: zext(extract(a,0,j))
                if (k + 1).is_power_of_two() {
                    let j = k.trailing_ones();
                    let lo = self.extract(a, 0, j);
                    return self.zext(lo, w);
                }
                if na.op == Op::ZExt {
                    let iw = self.w(na.a);
                    let kk = self.konst(iw, k & mask(iw));
                    let x = self.bin(Op::And, na.a, kk);
                    return self.zext(x, w);
                }
                if na.op == Op::Concat {
                    let lw = self.w(na.b);
                    let hw = w - lw;
                    let kh = self.konst(hw, k >> lw);
                    let kl = self.konst(lw, k & mask(lw));
                    let h = self.bin(Op::And, na.a, kh);
                    let l = self.bin(Op::And, na.b, kl);
                    return self.concat(h, l);
                }
            }
            if op == Op::Or || op == Op::Xor {
                if na.op == Op::ZExt && w > 1 {
                    let iw = self.w(na.a);
                    let hi = self.konst(w - iw, k >> iw);
                    let kl = self.konst(iw, k & mask(iw));
                    let lo = self.bin(op, na.a, kl);
                    return self.concat(hi, lo);
                }
                if na.op == Op::Concat {
                    let lw = self.w(na.b);
                    let hw = w - lw;
                    let kh = self.konst(hw, k >> lw);
                    let kl = self.konst(lw, k & mask(lw));
                    let h = self.bin(op, na.a, kh);
                    let l = self.bin(op, na.b, kl);
                    return self.concat(h, l);
                }
            }
        } else if let Some(x) = ca {
            // non-commutative with constant left
            match op {
                Op::Shl | Op::LShr | Op::AShr | Op::UDiv | Op::URem if x == 0 => return a,
                _ => {}
            }
            if let Some((c, p, q)) = self.ite_consts(b) {
                let kx = self.konst(w, fold(op, w, x, p));
                let ky = self.konst(w, fold(op, w, x, q));
                return self.ite(c, kx, ky);
            }
        }
        if a == b {
            match op {
                Op::Sub | Op::Xor => return self.konst(w, 0),
                Op::And | Op::Or => return a,
                _ => {}
            }
        }
        if w == 1 {
            let na = self.n(a);
            let nb = self.n(b);
            let compl = (na.op == Op::Xor && na.b == 1 && na.a == b) || (nb.op == Op::Xor && nb.b == 1 && nb.a == a);
            if compl {
                match op {
                    Op::And => return 0,
                    Op::Or => return 1,
                    _ => {}
                }
            }
        }
        if op == Op::Or && w > 1 {
            if let Some(r) = self.or_concat(a, b, w) {
                return r;
            }
            if let Some(r) = self.or_concat(b, a, w) {
                return r;
            }
        }
        self.raw(op, w, a, b, 0)
    }
    /// or(concat(hi, 0:k), x) where x < 2^k  ->  concat(hi, low k bits of x)
    fn or_concat(&mut self, a: Eid, b: Eid, w: u32) -> Option<Eid> {
        let na = self.n(a);
        if na.op != Op::Concat {
            return None;
        }
        let k = self.w(na.b);
        let nb = self.n(b);
        if nb.op == Op::ZExt && self.w(nb.a) <= k {
            let low = self.zext(nb.a, k);
            let l = self.bin(Op::Or, na.b, low);
            return Some(self.concat(na.a, l));
        }
        if nb.op == Op::Concat && self.w(nb.b) == k {
            let l = self.bin(Op::Or, na.b, nb.b);
            let h = self.bin(Op::Or, na.a, nb.a);
            return Some(self.concat(h, l));
        }
        let _ = w;
        None
    }
    pub fn eq(&mut self, mut a: Eid, mut b: Eid) -> Eid {
        if a == b {
            return 1;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if self.cval(a).is_some() {
            std::mem::swap(&mut a, &mut b);
        }
        if self.cval(a).is_some() {
            return 0; // distinct constants
        }
        if let Some(k) = self.cval(b) {
            if w == 1 {
                return if k == 1 { a } else { self.not(a) };
            }
            let na = self.n(a);
            match na.op {
                Op::ZExt => {
                    let iw = self.w(na.a);
                    if k > mask(iw) {
                        return 0;
                    }
                    let kk = self.konst(iw, k);
                    return self.eq(na.a, kk);
                }
                Op::SExt => {
                    let iw = self.w(na.a);
                    let t = k & mask(iw);
                    if (sext(t, iw) as u128) & mask(w) != k {
                        return 0;
                    }
                    let kk = self.konst(iw, t);
                    return self.eq(na.a, kk);
                }
                Op::Concat => {
                    let lw = self.w(na.b);
                    let kl = self.konst(lw, k & mask(lw));
                    let kh = self.konst(w - lw, k >> lw);
                    let x = self.eq(na.a, kh);
                    if x == 0 {
                        return 0;
                    }
                    let y = self.eq(na.b, kl);
                    return self.bin(Op::And, x, y);
                }
                Op::Ite => {
                    let cb = self.cval(na.b);
                    let cc = self.cval(na.c);
                    if cb.is_some() || cc.is_some() {
                        let x = self.eq(na.b, b);
                        let y = self.eq(na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                Op::Add => {
                    if let Some(k2) = self.cval(na.b) {
                        let kk = self.konst(w, k.wrapping_sub(k2));
                        return self.eq(na.a, kk);
                    }
                }
                Op::Sub if k == 0 => return self.eq(na.a, na.b),
                Op::Xor => {
                    if let Some(k2) = self.cval(na.b) {
                        let kk = self.konst(w, k ^ k2);
                        return self.eq(na.a, kk);
                    }
                    if k == 0 {
                        return self.eq(na.a, na.b);
                    }
                }
                Op::And => {
                    if let Some(k2) = self.cval(na.b) {
                        if k & !k2 != 0 {
                            return 0;
                        }
                    }
                }
                Op::Or => {
                    if let Some(k2) = self.cval(na.b) {
                        if k2 & !k != 0 {
                            return 0;
                        }
                    }
                    if k == 0 {
                        let z = b;
                        let x = self.eq(na.a, z);
                        let y = self.eq(na.b, z);
                        return self.bin(Op::And, x, y);
                    }
                }
                _ => {}
            }
        } else {
            let (na, nb) = (self.n(a), self.n(b));
            if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                return self.eq(na.a, nb.a);
            }
            if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                let x = self.eq(na.a, nb.a);
                if x == 0 {
                    return 0;
                }
                let y = self.eq(na.b, nb.b);
                return self.bin(Op::And, x, y);
            }
            if na.op == Op::Concat && nb.op == Op::ZExt || na.op == Op::ZExt && nb.op == Op::Concat {
                let (cc, z) = if na.op == Op::Concat { (na, b) } else { (nb, a) };
                let lw = self.w(cc.b);
                let zl = self.extract(z, 0, lw);
                let zh = self.extract(z, lw, w - lw);
                let x = self.eq(cc.a, zh);
                if x == 0 {
                    return 0;
                }
                let y = self.eq(cc.b, zl);
                return self.bin(Op::And, x, y);
            }
            if a > b {
                std::mem::swap(&mut a, &mut b);
            }
        }
        self.raw(Op::Eq, 1, a, b, 0)
    }
    pub fn ult(&mut self, a: Eid, b: Eid) -> Eid {
        if a == b {
            return 0;
        }
        let w = self.w(a);
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return (x < y) as u32;
        }
        if let Some(k) = cb {
            if k == 0 {
                return 0;
            }
            if k == 1 {
                let z = self.konst(w, 0);
                return self.eq(a, z);
            }
            if k == mask(w) {
                let e = self.eq(a, b);
                return self.not(e);
            }
            let na = self.n(a);
            if na.op == Op::ZExt {
                let iw = self.w(na.a);
                if k > mask(iw) {
                    return 1;
                }
                let kk = self.konst(iw, k);
                return self.ult(na.a, kk);
            }
            if na.op == Op::Ite && (self.cval(na.b).is_some() || self.cval(na.c).is_some()) {
                let x = self.ult(na.b, b);
                let y = self.ult(na.c, b);
                return self.ite(na.a, x, y);
            }
            if na.op == Op::Concat {
                if let Some(h) = self.cval(na.a) {
                    let lw = self.w(na.b);
                    let kh = k >> lw;
                    if h < kh {
                        return 1;
                    }
                    if h > kh {
                        return 0;
                    }
                    let kl = self.konst(lw, k & mask(lw));
                    return self.ult(na.b, kl);
                }
            }
        }
        if let Some(k) = ca {
            if k == mask(w) {
                return 0;
            }
            if k == 0 {
                let e = self.eq(b, a);
                return self.not(e);
            }
            let nb = self.n(b);
            if nb.op == Op::ZExt {
                let iw = self.w(nb.a);
                if k >= mask(iw) {
                    return 0;
                }
                let kk = self.konst(iw, k);
                return self.ult(kk, nb.a);
            }
            if nb.op == Op::Ite && (self.cval(nb.b).is_some() || self.cval(nb.c).is_some()) {
                let x = self.ult(a, nb.b);
                let y = self.ult(a, nb.c);
                return self.ite(nb.a, x, y);
            }
            if nb.op == Op::Concat {
                if let Some(h) = self.cval(nb.a) {
                    let lw = self.w(nb.b);
                    let kh = k >> lw;
                    if kh < h {
                        return 1;
                    }
                    if kh > h {
                        return 0;
                    }
                    let kl = self.konst(lw, k & mask(lw));
                    return self.ult(kl, nb.b);
                }
            }
            // k < b  <=>  not (b < k+1)
            let k1 = self.konst(w, k + 1);
            let x = self.ult(b, k1);
            return self.not(x);
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            return self.ult(na.a, nb.a);
        }
        self.raw(Op::Ult, 1, a, b, 0)
    }
    pub fn ule(&mut self, a: Eid, b: Eid) -> Eid {
        let x = self.ult(b, a);
        self.not(x)
    }
    fn topzero(&self, a: Eid) -> bool {
        let n = self.n(a);
        match n.op {
            Op::Const => self.consts[n.a as usize] >> (n.w as u32 - 1) == 0,
            Op::ZExt => self.w(n.a) < n.w as u32,
            Op::Concat => self.topzero(n.a),
            Op::Ite => self.topzero(n.b) && self.topzero(n.c),
            _ => false,
        }
    }
    pub fn slt(&mut self, a: Eid, b: Eid) -> Eid {
        if a == b {
            return 0;
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return (sext(x, w) < sext(y, w)) as u32;
        }
        if self.topzero(a) && self.topzero(b) {
            return self.ult(a, b);
        }
        if w > 1 {
            // sign tests
            if self.cval(b) == Some(0) {
                return self.extract(a, w - 1, 1);
            }
            if self.cval(a) == Some(mask(w)) {
                let s = self.extract(b, w - 1, 1);
                return self.not(s);
            }
        }
        if let Some((c, x, y)) = self.ite_consts(a) {
            let kx = self.konst(w, x);
            let ky = self.konst(w, y);
            let p = self.slt(kx, b);
            let q = self.slt(ky, b);
            return self.ite(c, p, q);
        }
        if let Some((c, x, y)) = self.ite_consts(b) {
            let kx = self.konst(w, x);
            let ky = self.konst(w, y);
            let p = self.slt(a, kx);
            let q = self.slt(a, ky);
            return self.ite(c, p, q);
        }
        self.raw(Op::Slt, 1, a, b, 0)
    }
    pub fn ite(&mut self, c: Eid, a: Eid, b: Eid) -> Eid {
        if c == 1 || a == b {
            return a;
        }
        if c == 0 {
            return b;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let nc = self.n(c);
        if nc.op == Op::Xor && nc.b == 1 {
            return self.ite(nc.a, b, a);
        }
        if w == 1 {
            if a == 1 && b == 0 {
                return c;
            }
            if a == 0 && b == 1 {
                return self.not(c);
            }
            if a == 1 || a == c {
                return self.bin(Op::Or, c, b);
            }
            if b == 0 || b == c {
                return self.bin(Op::And, c, a);
            }
            if a == 0 {
                let n = self.not(c);
                return self.bin(Op::And, n, b);
            }
            if b == 1 {
                let n = self.not(c);
                return self.bin(Op::Or, n, a);
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        if nb.op == Op::Ite && nb.b == a {
            let o = self.bin(Op::Or, c, nb.a);
            return self.ite(o, a, nb.c);
        }
        self.raw(Op::Ite, w, c, a, b)
    }
    pub fn zext(&mut self, a: Eid, w: u32) -> Eid {
        let n = self.n(a);
        let aw = n.w as u32;
        if aw == w {
            return a;
        }
        debug_assert!(aw < w);
        match n.op {
            Op::Const => {
                let v = self.consts[n.a as usize];
                self.konst(w, v)
            }
            Op::ZExt => self.zext(n.a, w),
            Op::Ite if self.cval(n.b).is_some() && self.cval(n.c).is_some() => {
                let x = self.zext(n.b, w);
                let y = self.zext(n.c, w);
                self.ite(n.a, x, y)
            }
            _ => self.raw(Op::ZExt, w, a, 0, 0),
        }
    }
    pub fn sext_e(&mut self, a: Eid, w: u32) -> Eid {
        let n = self.n(a);
        let aw = n.w as u32;
        if aw == w {
            return a;
        }
        if self.topzero(a) {
            return self.zext(a, w);
        }
        match n.op {
            Op::Const => {
                let v = self.consts[n.a as usize];
                self.konst(w, sext(v, aw) as u128)
            }
            _ if aw == 1 => {
                let x = self.konst(w, mask(w));
                let y = self.konst(w, 0);
                self.ite(a, x, y)
            }
            Op::Ite if self.cval(n.b).is_some() && self.cval(n.c).is_some() => {
                let x = self.sext_e(n.b, w);
                let y = self.sext_e(n.c, w);
                self.ite(n.a, x, y)
            }
            _ => self.raw(Op::SExt, w, a, 0, 0),
        }
    }
    pub fn extract(&mut self, a: Eid, lo: u32, w: u32) -> Eid {
        let n = self.n(a);
        let aw = n.w as u32;
        if lo == 0 && w == aw {
            return a;
        }
        debug_assert!(lo + w <= aw);
        match n.op {
            Op::Const => {
                let v = self.consts[n.a as usize];
                self.konst(w, v >> lo)
            }
            Op::Extract => self.extract(n.a, n.b + lo, w),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    self.konst(w, 0)
                } else if lo + w <= iw {
                    self.extract(n.a, lo, w)
                } else {
                    let x = self.extract(n.a, lo, iw - lo);
                    self.zext(x, w)
                }
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    self.extract(n.a, lo, w)
                } else {
                    self.raw(Op::Extract, w, a, lo, 0)
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    self.extract(n.a, lo - lw, w)
                } else if lo + w <= lw {
                    self.extract(n.b, lo, w)
                } else {
                    let h = self.extract(n.a, 0, lo + w - lw);
                    let l = self.extract(n.b, lo, lw - lo);
                    self.concat(h, l)
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                self.bin(n.op, x, y)
            }
            Op::Add | Op::Mul | Op::Sub if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                self.bin(n.op, x, y)
            }
            Op::Ite if self.cval(n.b).is_some() || self.cval(n.c).is_some() => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                self.ite(n.a, x, y)
            }
            _ => self.raw(Op::Extract, w, a, lo, 0),
        }
    }
    pub fn concat(&mut self, hi: Eid, lo: Eid) -> Eid {
        let (hw, lw) = (self.w(hi), self.w(lo));
        let w = hw + lw;
        let (nh, nl) = (self.n(hi), self.n(lo));
        if let Some(h) = self.cval(hi) {
            if let Some(l) = self.cval(lo) {
                return self.konst(w, (h << lw) | l);
            }
            if h == 0 {
                return self.zext(lo, w);
            }
            if nl.op == Op::Concat {
                if let Some(h2) = self.cval(nl.a) {
                    let w2 = self.w(nl.a);
                    let k = self.konst(hw + w2, (h << w2) | h2);
                    return self.concat(k, nl.b);
                }
            }
        }
        // concat(extract(x, l+lw..), extract(x, l..)) -> extract
        let (hx, hl) = if nh.op == Op::Extract { (nh.a, nh.b) } else { (hi, 0) };
        let (lxx, ll) = if nl.op == Op::Extract { (nl.a, nl.b) } else { (lo, 0) };
        if nh.op == Op::Extract && hx == lxx && hl == ll + lw {
            return self.extract(hx, ll, w);
        }
        // concat(concat(p, extract(x,..)), extract(x,..))
        if nh.op == Op::Concat {
            let nb = self.n(nh.b);
            if nb.op == Op::Extract && nb.a == lxx && nb.b == ll + lw {
                let j = self.extract(lxx, ll, lw + nb.w as u32);
                return self.concat(nh.a, j);
            }
            if self.cval(lo).is_some() && self.cval(nh.b).is_some() {
                let x = self.cval(nh.b).unwrap();
                let y = self.cval(lo).unwrap();
                let wb = self.w(nh.b);
                let k = self.konst(wb + lw, (x << lw) | y);
                return self.concat(nh.a, k);
            }
        }
        // zext(extract(x, j, k)) high part followed by low part of x: concat(zext(e), l)
        if nh.op == Op::ZExt {
            let inner = self.concat(nh.a, lo);
            return self.zext(inner, w);
        }
        self.raw(Op::Concat, w, hi, lo, 0)
    }

    /// Evaluate under a model (values indexed by variable).
    pub fn eval(&mut self, e: Eid, vals: &[u64], epoch: u32) -> u128 {
        let i = e as usize;
        let n = self.nodes[i];
        if n.op == Op::Const {
            return self.consts[n.a as usize];
        }
        if self.ev_epoch[i] == epoch {
            return self.ev_val[i];
        }
        let w = n.w as u32;
        let r = match n.op {
            Op::Const => unreachable!(),
            Op::Var => vals.get(n.a as usize).copied().unwrap_or(0) as u128 & mask(w),
            Op::Ite => {
                if self.eval(n.a, vals, epoch) == 1 {
                    self.eval(n.b, vals, epoch)
                } else {
                    self.eval(n.c, vals, epoch)
                }
            }
            Op::Eq => (self.eval(n.a, vals, epoch) == self.eval(n.b, vals, epoch)) as u128,
            Op::Ult => (self.eval(n.a, vals, epoch) < self.eval(n.b, vals, epoch)) as u128,
            Op::Slt => {
                let w = self.w(n.a);
                (sext(self.eval(n.a, vals, epoch), w) < sext(self.eval(n.b, vals, epoch), w)) as u128
            }
            Op::Concat => {
                let lw = self.w(n.b);
                (self.eval(n.a, vals, epoch) << lw) | self.eval(n.b, vals, epoch)
            }
            Op::Extract => (self.eval(n.a, vals, epoch) >> n.b) & mask(w),
            Op::ZExt => self.eval(n.a, vals, epoch),
            Op::SExt => {
                let aw = self.w(n.a);
                (sext(self.eval(n.a, vals, epoch), aw) as u128) & mask(w)
            }
            op => {
                let x = self.eval(n.a, vals, epoch);
                let y = self.eval(n.b, vals, epoch);
                fold(op, w, x, y)
            }
        };
        self.ev_epoch[i] = epoch;
        self.ev_val[i] = r;
        r
    }
}
