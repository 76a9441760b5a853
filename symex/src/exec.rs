//! Symbolic executor: concrete addresses, symbolic bytes, forking on feasible branches.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use crate::race::Race;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub kind: u8, // 0 global, 1 constant, 2 stack, 3 heap
    pub bytes: Vec<u8>,
    pub sym: Option<Vec<Eid>>,
}
const PG: usize = 64;
type Page = [Option<Rc<Obj>>; PG];

#[derive(Clone)]
pub struct Mem {
    pages: Vec<Rc<Page>>,
    next: u64,
}

impl Mem {
    fn new() -> Mem {
        Mem { pages: vec![], next: 0 }
    }
    fn ensure(&mut self, id: u64) {
        while (id as usize) / PG >= self.pages.len() {
            self.pages.push(Rc::new(std::array::from_fn(|_| None)));
        }
    }
    fn put(&mut self, id: u64, o: Obj) {
        self.ensure(id);
        let p = Rc::make_mut(&mut self.pages[id as usize / PG]);
        p[id as usize % PG] = Some(Rc::new(o));
        if id >= self.next {
            self.next = id + 1;
        }
    }
    pub fn alloc(&mut self, size: u64, kind: u8, fill: u8) -> u64 {
        let id = self.next;
        self.put(id, Obj { size, kind, bytes: vec![fill; size as usize], sym: None });
        id << OBJ_SHIFT
    }
    #[inline]
    fn get(&self, id: u64) -> Option<&Rc<Obj>> {
        self.pages.get(id as usize / PG)?[id as usize % PG].as_ref()
    }
    fn get_mut(&mut self, id: u64) -> Option<&mut Obj> {
        let p = self.pages.get_mut(id as usize / PG)?;
        let p = Rc::make_mut(p);
        p[id as usize % PG].as_mut().map(Rc::make_mut)
    }
    fn remove(&mut self, id: u64) {
        let p = Rc::make_mut(&mut self.pages[id as usize / PG]);
        p[id as usize % PG] = None;
    }
}

#[derive(Clone)]
pub struct Frame {
    pub func: usize,
    body: Rc<Body>,
    blk: u32,
    ip: u32,
    regs: Vec<V>,
    allocas: Vec<u64>,
    ret_dst: Option<u32>,
    ret_normal: Option<u32>,
}

#[derive(Clone)]
pub struct Model {
    vals: Vec<u64>,
    epoch: u32,
}

#[derive(Clone)]
pub struct Thread {
    stack: Vec<Rc<Frame>>,
    top: Option<Frame>, // None while another thread runs or when finished
    done: bool,
    parked: bool, // blocked in park()
    token: bool,  // unpark token
    preempts: u32,
    fut: Option<u64>, // waiting on this futex
    woken: bool,      // and woken from it
    join: Option<usize>, // waiting for this thread to end
}
impl Thread {
    fn new(top: Option<Frame>) -> Thread {
        Thread { stack: vec![], top, done: false, parked: false, token: false, preempts: 0, fut: None, woken: false, join: None }
    }
}

#[derive(Clone)]
pub struct State {
    top: Frame,
    stack: Vec<Rc<Frame>>,
    mem: Mem,
    cons: Vec<u32>,
    model: Rc<Model>,
    nd: Vec<Eid>, // variables, in order of creation on this path
    fixed: Rc<Vec<Option<u64>>>,
    pub instrs: u64,
    covers: BTreeSet<u32>,
    threads: Vec<Thread>,
    tls: Rc<BTreeMap<(usize, u64), u64>>, // thread-local objects of threads other than the first
    cur: usize,
    sched_done: bool, // the scheduling decision for the pending instruction has been taken
    preempts: u32,
    depth: u32,
    race: RefCell<Rc<Race>>,
    atomic: Cell<bool>, // the access being made is atomic
}

pub enum Stop {
    Fork { side: Eid, other: Eid, asg: Asg },
    Viol(String, String), // kind, message
    End(&'static str),
    Fatal(String),
}
type R<T> = Result<T, Stop>;

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub stack: Vec<String>,
    pub inputs: Vec<(u32, u64)>, // width, value
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub paths_ok: u64,
    pub paths_assume: u64,
    pub paths_viol: u64,
    pub forks: u64,
    pub instrs: u64,
    pub checks: u64,
    pub max_path: u64,
    pub allocs: u64,
}

pub struct Engine {
    pub m: Module,
    bodies: Vec<Option<Rc<Body>>>,
    pub sv: Solver,
    pub st: Stats,
    pub used: Vec<bool>,
    pub viol: Vec<Violation>,
    pub max_instr: u64,
    pub covers: BTreeMap<u32, u64>,
    pub samples: Vec<Vec<(u32, u64)>>,
    pub max_preempt: u32,
    pub races: bool,
    pub max_nd: usize,
    pub trace: bool,
    pub branches: BTreeSet<(usize, u32)>,
    errno: u64,
    init_mem: Mem,
    pub fork_sites: HashMap<(usize, u32), u64>,
    pub profile: bool,
    pub params: Vec<u64>,
}

fn c64(w: u32, v: u64) -> u64 {
    if w >= 64 {
        v
    } else {
        v & ((1u64 << w) - 1)
    }
}
#[inline]
pub fn ex(v: &V, w: u32) -> Eid {
    match v {
        V::C(c) => cx().konst(w, *c as u128),
        V::X(e) => *e,
        V::A(_) => panic!("aggregate as scalar"),
    }
}
#[inline]
pub fn mkv(e: Eid) -> V {
    let c = cx();
    if c.w(e) <= 64 {
        if let Some(k) = c.cval(e) {
            return V::C(k as u64);
        }
    }
    V::X(e)
}

fn bin_v(op: Bin, w: u32, a: &V, b: &V) -> V {
    if let (V::C(x), V::C(y)) = (a, b) {
        if w <= 64 {
            let r = match op {
                Bin::Add => x.wrapping_add(*y),
                Bin::Sub => x.wrapping_sub(*y),
                Bin::And => x & y,
                Bin::Or => x | y,
                Bin::Xor => x ^ y,
                Bin::Mul => x.wrapping_mul(*y),
                _ => fold(binop(op), w, *x as u128, *y as u128) as u64,
            };
            return V::C(c64(w, r));
        }
    }
    mkv(cx().bin(binop(op), ex(a, w), ex(b, w)))
}
fn icmp_v(p: Pred, w: u32, a: &V, b: &V) -> V {
    if let (V::C(x), V::C(y)) = (a, b) {
        if w <= 64 {
            let (x, y) = (*x, *y);
            let (sx_, sy) = (sx(x, w), sx(y, w));
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx_ < sy,
                Pred::Sle => sx_ <= sy,
                Pred::Sgt => sx_ > sy,
                Pred::Sge => sx_ >= sy,
            };
            return V::C(r as u64);
        }
    }
    let c = cx();
    let (x, y) = (ex(a, w), ex(b, w));
    let r = match p {
        Pred::Eq => c.eq(x, y),
        Pred::Ne => {
            let e = c.eq(x, y);
            c.not(e)
        }
        Pred::Ult => c.ult(x, y),
        Pred::Ugt => c.ult(y, x),
        Pred::Ule => {
            let e = c.ult(y, x);
            c.not(e)
        }
        Pred::Uge => {
            let e = c.ult(x, y);
            c.not(e)
        }
        Pred::Slt => c.slt(x, y),
        Pred::Sgt => c.slt(y, x),
        Pred::Sle => {
            let e = c.slt(y, x);
            c.not(e)
        }
        Pred::Sge => {
            let e = c.slt(x, y);
            c.not(e)
        }
    };
    mkv(r)
}
fn ite_v(c: Eid, a: &V, b: &V, ty: &Ty) -> V {
    match (a, b) {
        (V::A(x), V::A(y)) => {
            let v = x.iter().zip(y.iter()).enumerate().map(|(i, (p, q))| ite_v(c, p, q, &ty.elem(i))).collect();
            V::A(Rc::new(v))
        }
        (V::C(p), V::C(q)) if p == q => a.clone(),
        _ => {
            let w = ty.width();
            let (x, y) = (ex(a, w), ex(b, w));
            mkv(cx().ite(c, x, y))
        }
    }
}
fn lanes(v: &V) -> &[V] {
    match v {
        V::A(x) => &x[..],
        _ => panic!("vector expected"),
    }
}

impl State {
    fn opv<'a>(&'a self, o: &'a Opnd) -> &'a V {
        match o {
            Opnd::R(r) => &self.top.regs[*r as usize],
            Opnd::K(v) => v,
        }
    }
    fn set(&mut self, d: u32, v: V) {
        self.top.regs[d as usize] = v;
    }
    fn add_con(&mut self, e: Eid) {
        if e == 1 {
            return;
        }
        let c = cx();
        let n = c.n(e);
        if n.op == Op::And && n.w == 1 {
            self.add_con(n.a);
            self.add_con(n.b);
            return;
        }
        if self.cons.contains(&e) {
            return;
        }
        self.cons.push(e);
        if n.op == Op::Eq {
            if let Some(k) = c.cval(n.b) {
                let na = c.n(n.a);
                if na.op == Op::Var {
                    let f = Rc::make_mut(&mut self.fixed);
                    while f.len() <= na.a as usize {
                        f.push(None);
                    }
                    f[na.a as usize] = Some(k as u64);
                }
            }
        } else if n.w == 1 && n.op == Op::Var {
            let f = Rc::make_mut(&mut self.fixed);
            while f.len() <= n.a as usize {
                f.push(None);
            }
            f[n.a as usize] = Some(1);
        }
    }
    fn eval(&self, e: Eid) -> u128 {
        cx().eval(e, &self.model.vals, self.model.epoch)
    }
    fn set_model(&mut self, asg: &Asg) {
        let mut m = (*self.model).clone();
        for (v, x) in asg.iter() {
            while m.vals.len() <= *v as usize {
                m.vals.push(0);
            }
            m.vals[*v as usize] = *x;
        }
        m.epoch = cx().next_epoch;
        cx().next_epoch += 1;
        self.model = Rc::new(m);
    }
    fn fixed_val(&self, e: Eid) -> Option<u64> {
        let c = cx();
        let n = c.n(e);
        match n.op {
            Op::Var => self.fixed.get(n.a as usize).copied().flatten(),
            Op::Extract => {
                let m = c.n(n.a);
                if m.op == Op::Var {
                    self.fixed.get(m.a as usize).copied().flatten().map(|v| c64(n.w as u32, v >> n.b))
                } else {
                    None
                }
            }
            _ => None,
        }
    }
}

impl Engine {
    pub fn new(m: Module, timeout_ms: u32) -> Engine {
        let n = m.funcs.len();
        Engine {
            m,
            bodies: vec![None; n],
            sv: Solver::new(timeout_ms),
            st: Stats::default(),
            used: vec![false; n],
            viol: vec![],
            max_instr: 50_000_000,
            covers: BTreeMap::new(),
            samples: vec![],
            max_preempt: 2,
            races: true,
            max_nd: 120,
            trace: false,
            branches: BTreeSet::new(),
            errno: 0,
            init_mem: Mem::new(),
            fork_sites: HashMap::new(),
            profile: false,
            params: vec![],
        }
    }
    fn body(&mut self, f: usize) -> Rc<Body> {
        if let Some(b) = &self.bodies[f] {
            return b.clone();
        }
        let b = Rc::new(self.m.body(f));
        self.bodies[f] = Some(b.clone());
        self.used[f] = true;
        b
    }
    pub fn init(&mut self, entry: &str) -> State {
        let f = *self.m.fidx.get(entry).unwrap_or_else(|| panic!("no function {}", entry));
        let mut mem = Mem::new();
        mem.next = FIRST_OBJ;
        let ng = self.m.globals.len();
        for i in 0..ng {
            let g = &self.m.globals[i];
            let size = g.ty.size();
            let ty = g.ty.clone();
            let kind = if g.constant { 1 } else { 0 };
            let id = g.objid;
            let mut o = Obj { size, kind, bytes: vec![0; size as usize], sym: None };
            if let Some(v) = self.m.global_init(&self.m.globals[i]) {
                Self::write_const(&mut o, 0, &ty, &v);
            }
            mem.put(id, o);
        }
        self.errno = mem.alloc(8, 0, 0);
        self.init_mem = mem.clone();
        let body = self.body(f);
        let regs = vec![V::C(0); body.nregs];
        let epoch = cx().next_epoch;
        cx().next_epoch += 1;
        State {
            top: Frame { func: f, body, blk: 0, ip: 0, regs, allocas: vec![], ret_dst: None, ret_normal: None },
            stack: vec![],
            mem,
            cons: vec![],
            model: Rc::new(Model { vals: vec![], epoch }),
            nd: vec![],
            fixed: Rc::new(vec![]),
            instrs: 0,
            covers: BTreeSet::new(),
            threads: vec![],
            tls: Rc::new(BTreeMap::new()),
            cur: 0,
            sched_done: false,
            preempts: 0,
            depth: 0,
            race: Default::default(),
            atomic: Cell::new(false),
        }
    }
    fn write_const(o: &mut Obj, off: u64, ty: &Ty, v: &V) {
        match v {
            V::C(c) => {
                let n = ty.store_size();
                for k in 0..n {
                    o.bytes[(off + k) as usize] = if k < 8 { (c >> (8 * k)) as u8 } else { 0 };
                }
            }
            V::X(e) => {
                let k = cx().cval(*e).expect("const");
                for j in 0..ty.store_size() {
                    o.bytes[(off + j) as usize] = (k >> (8 * j)) as u8;
                }
            }
            V::A(xs) => {
                for (i, x) in xs.iter().enumerate() {
                    Self::write_const(o, off + ty.field_off(i), &ty.elem(i), x);
                }
            }
        }
    }
    // ---------- decisions ----------
    fn decide(&mut self, s: &mut State, c: Eid) -> R<bool> {
        if c == 0 {
            return Ok(false);
        }
        if c == 1 {
            return Ok(true);
        }
        let nc = cx().not(c);
        for k in s.cons.iter().rev() {
            if *k == c {
                return Ok(true);
            }
            if *k == nc {
                return Ok(false);
            }
        }
        let v = s.eval(c) == 1;
        let (side, other) = if v { (c, nc) } else { (nc, c) };
        match self.sv.query(&s.cons, other) {
            Res::Unsat => Ok(v),
            Res::Sat(asg) => Err(Stop::Fork { side, other, asg }),
            Res::Unknown => Err(Stop::Fatal("solver returned unknown".into())),
        }
    }
    fn decide_v(&mut self, s: &mut State, v: &V) -> R<bool> {
        match v {
            V::C(c) => Ok(*c & 1 == 1),
            V::X(e) => {
                let e = *e;
                let b = if cx().w(e) == 1 { e } else { cx().extract(e, 0, 1) };
                self.decide(s, b)
            }
            _ => panic!("decide agg"),
        }
    }
    fn concretize(&mut self, s: &mut State, v: &V, w: u32) -> R<u64> {
        match v {
            V::C(c) => Ok(*c),
            V::X(e) => {
                let val = s.eval(*e);
                let k = cx().konst(w, val);
                let q = cx().eq(*e, k);
                if self.decide(s, q)? {
                    Ok(val as u64)
                } else {
                    Err(Stop::Fatal("concretize: model inconsistent".into()))
                }
            }
            _ => panic!("concretize agg"),
        }
    }
    // ---------- memory ----------
    fn resolve(&self, s: &State, addr: u64, n: u64, write: bool) -> R<(u64, u64)> {
        let id = addr >> OBJ_SHIFT;
        let off = addr & ((1 << OBJ_SHIFT) - 1);
        match s.mem.get(id) {
            Some(o) if id >= FIRST_OBJ => {
                if off + n <= o.size {
                    if write && o.kind == 1 {
                        return Err(Stop::Viol("memory".into(), "write to constant memory".into()));
                    }
                    if s.threads.len() > 1 {
                        self.check_race(s, addr, n, write, o.kind)?;
                    }
                    Ok((id, off))
                } else {
                    Err(Stop::Viol(
                        "memory".into(),
                        format!("out-of-bounds {} of {} byte(s) at offset {} of a {}-byte {} object", if write { "write" } else { "read" }, n, off, o.size, ["global", "constant", "stack", "heap"][o.kind as usize]),
                    ))
                }
            }
            _ => {
                if addr < (FIRST_OBJ << OBJ_SHIFT) {
                    Err(Stop::Viol("memory".into(), format!("invalid pointer dereference ({:#x})", addr)))
                } else if id < s.mem.next {
                    Err(Stop::Viol("memory".into(), "use after free".into()))
                } else {
                    Err(Stop::Viol("memory".into(), format!("wild pointer dereference ({:#x})", addr)))
                }
            }
        }
    }
    fn check_race(&self, s: &State, addr: u64, n: u64, write: bool, kind: u8) -> R<()> {
        // global variables: the harness's own counters
        if kind < 2 || !self.races {
            return Ok(());
        }
        let mut r = s.race.borrow_mut();
        if let Some(with) = Rc::make_mut(&mut r).access(s.cur, addr, n, write, s.atomic.get()) {
            let what = match (s.atomic.get(), write) {
                (false, true) => "plain write",
                (false, false) => "plain read",
                (true, true) => "atomic write",
                (true, false) => "atomic read",
            };
            return Err(Stop::Viol("race".into(), format!("data race: {} unordered with {} by another thread", what, with)));
        }
        Ok(())
    }
    /// Synchronisation effects of an atomic access at the address.
    fn synced(&self, s: &State, p: &V, load: Option<u8>, store: Option<u8>) {
        s.atomic.set(false);
        if s.threads.len() < 2 {
            return;
        }
        if let V::C(a) = p {
            let mut r = s.race.borrow_mut();
            let r = Rc::make_mut(&mut r);
            if let Some(o) = load {
                r.at_load(s.cur, *a, o);
            }
            if let Some(o) = store {
                r.at_store(s.cur, *a, o, load.is_some());
            }
        }
    }
    fn rd(&self, s: &State, id: u64, off: u64, n: u64, w: u32) -> V {
        // integer of width w stored in n bytes
        let o = s.mem.get(id).unwrap();
        let off = off as usize;
        let n = n as usize;
        let anysym = match &o.sym {
            None => false,
            Some(v) => v[off..off + n].iter().any(|e| *e != u32::MAX),
        };
        if !anysym {
            if n <= 8 {
                let mut r = 0u64;
                for k in (0..n).rev() {
                    r = (r << 8) | o.bytes[off + k] as u64;
                }
                return V::C(c64(w, r));
            }
            let mut r = 0u128;
            for k in (0..n).rev() {
                r = (r << 8) | o.bytes[off + k] as u128;
            }
            return V::X(cx().konst(w, r));
        }
        let c = cx();
        let sy = o.sym.as_ref().unwrap();
        let mut acc: Option<Eid> = None;
        for k in (0..n).rev() {
            let b = if sy[off + k] == u32::MAX {
                c.konst(8, o.bytes[off + k] as u128)
            } else if let Some(fv) = s.fixed_val(sy[off + k]) {
                c.konst(8, fv as u128)
            } else {
                sy[off + k]
            };
            acc = Some(match acc {
                None => b,
                Some(h) => c.concat(h, b),
            });
        }
        let e = acc.unwrap();
        let e = if c.w(e) > w { c.extract(e, 0, w) } else { e };
        mkv(e)
    }
    fn wr(&self, s: &mut State, id: u64, off: u64, n: u64, w: u32, v: &V) {
        let o = s.mem.get_mut(id).unwrap();
        let off = off as usize;
        match v {
            V::C(c) => {
                for k in 0..n as usize {
                    o.bytes[off + k] = if k < 8 { (c >> (8 * k)) as u8 } else { 0 };
                }
                if let Some(sy) = &mut o.sym {
                    for k in 0..n as usize {
                        sy[off + k] = u32::MAX;
                    }
                }
            }
            V::X(e) => {
                let cc = cx();
                let e = if cc.w(*e) < (n * 8) as u32 { cc.zext(*e, (n * 8) as u32) } else { *e };
                if o.sym.is_none() {
                    o.sym = Some(vec![u32::MAX; o.size as usize]);
                }
                let sy = o.sym.as_mut().unwrap();
                for k in 0..n as usize {
                    let b = cc.extract(e, 8 * k as u32, 8);
                    if let Some(c) = cc.cval(b) {
                        o.bytes[off + k] = c as u8;
                        sy[off + k] = u32::MAX;
                    } else {
                        sy[off + k] = b;
                    }
                }
            }
            _ => panic!("wr agg"),
        }
        let _ = w;
    }
    fn load_at(&self, s: &State, id: u64, off: u64, ty: &Ty) -> V {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => self.rd(s, id, off, ty.store_size(), ty.width()),
            Ty::Vector(n, t) if t.width() < 8 => {
                let bits = (*n as u32) * t.width();
                let v = self.rd(s, id, off, ty.size(), bits);
                self.bitcast(&v, &Ty::Int(bits), ty)
            }
            Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
                V::A(Rc::new((0..ty.count()).map(|i| self.load_at(s, id, off + ty.field_off(i), &ty.elem(i))).collect()))
            }
            _ => V::C(0),
        }
    }
    fn store_at(&self, s: &mut State, id: u64, off: u64, ty: &Ty, v: &V) {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => self.wr(s, id, off, ty.store_size(), ty.width(), v),
            Ty::Vector(n, t) if t.width() < 8 => {
                let bits = (*n as u32) * t.width();
                let x = self.bitcast(v, ty, &Ty::Int(bits));
                self.wr(s, id, off, ty.size(), bits, &x)
            }
            Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
                if let V::A(xs) = v {
                    for i in 0..ty.count() {
                        self.store_at(s, id, off + ty.field_off(i), &ty.elem(i), &xs[i]);
                    }
                } else {
                    panic!("store agg")
                }
            }
            _ => {}
        }
    }
    fn bitcast(&self, v: &V, ft: &Ty, tt: &Ty) -> V {
        if ft == tt {
            return v.clone();
        }
        let total = match ft {
            Ty::Vector(n, t) => *n as u32 * t.width(),
            t => t.width(),
        };
        let c = cx();
        // to one wide integer
        let wide: Eid = match ft {
            Ty::Vector(_, t) => {
                let mut acc: Option<Eid> = None;
                for x in lanes(v).iter().rev() {
                    let e = ex(x, t.width());
                    acc = Some(match acc {
                        None => e,
                        Some(h) => c.concat(h, e),
                    });
                }
                acc.unwrap()
            }
            t => ex(v, t.width()),
        };
        match tt {
            Ty::Vector(n, t) => {
                let tw = t.width();
                V::A(Rc::new((0..*n as u32).map(|i| mkv(c.extract(wide, i * tw, tw))).collect()))
            }
            _ => {
                let _ = total;
                mkv(wide)
            }
        }
    }
    /// Address operand -> concrete address (forking over feasible values if needed).
    fn addr(&mut self, s: &mut State, v: &V) -> R<u64> {
        self.concretize(s, v, 64)
    }
    fn load(&mut self, s: &mut State, p: &V, ty: &Ty) -> R<V> {
        match p {
            V::C(a) => {
                let (id, off) = self.resolve(s, *a, ty.store_size(), false)?;
                Ok(self.load_at(s, id, off, ty))
            }
            V::X(e) => {
                let e = *e;
                // table lookup?
                let av = s.eval(e) as u64;
                let id = av >> OBJ_SHIFT;
                let n = ty.store_size();
                if let (Some(o), Ty::Int(w)) = (s.mem.get(id).cloned(), ty) {
                    if *w <= 64 && o.sym.is_none() && o.size >= n && av & ((1 << OBJ_SHIFT) - 1) <= o.size - n {
                        let c = cx();
                        let base = id << OBJ_SHIFT;
                        let sup = c.sup[e as usize];
                        if sup.count_ones() == 1 && c.var_w[sup.trailing_zeros() as usize] <= 8 {
                            // in-bounds test first (forks the out-of-bounds case off)
                            let kb = c.konst(64, base as u128);
                            let rel = c.bin(Op::Sub, e, kb);
                            let lim = c.konst(64, (o.size - n + 1) as u128);
                            let inb = c.ult(rel, lim);
                            if self.decide(s, inb)? {
                                return Ok(self.table(s, e, sup.trailing_zeros(), base, &o, n, *w));
                            }
                            return Err(Stop::Fatal("table".into()));
                        }
                    }
                }
                let a = self.addr(s, p)?;
                let (id, off) = self.resolve(s, a, n, false)?;
                Ok(self.load_at(s, id, off, ty))
            }
            _ => panic!(),
        }
    }
    fn table(&mut self, _s: &State, e: Eid, vi: u32, base: u64, o: &Obj, n: u64, w: u32) -> V {
        let c = cx();
        let vw = c.var_w[vi as usize];
        let ve = c.var_ids[vi as usize];
        let mut by: BTreeMap<u64, Vec<(u64, u64)>> = BTreeMap::new(); // value -> ranges of var
        let mut vals = vec![0u64; vi as usize + 1];
        for x in 0..(1u64 << vw) {
            vals[vi as usize] = x;
            let ep = c.next_epoch;
            c.next_epoch += 1;
            let a = c.eval(e, &vals, ep) as u64;
            let off = a.wrapping_sub(base);
            if off > o.size - n {
                continue;
            }
            let mut r = 0u64;
            for k in (0..n as usize).rev() {
                r = (r << 8) | o.bytes[off as usize + k] as u64;
            }
            let r = c64(w, r);
            let rs = by.entry(r).or_default();
            match rs.last_mut() {
                Some(l) if l.1 + 1 == x => l.1 = x,
                _ => rs.push((x, x)),
            }
        }
        // most frequent value is the default
        let def = by.iter().max_by_key(|(_, r)| r.iter().map(|(a, b)| b - a + 1).sum::<u64>()).map(|(k, _)| *k).unwrap();
        let mut acc = c.konst(w, def as u128);
        for (v, rs) in by.iter() {
            if *v == def {
                continue;
            }
            let mut cond = 0;
            for (a, b) in rs {
                let t = if a == b {
                    let k = c.konst(vw, *a as u128);
                    c.eq(ve, k)
                } else {
                    let k = c.konst(vw, *a as u128);
                    let d = c.bin(Op::Sub, ve, k);
                    let l = c.konst(vw, (b - a + 1) as u128);
                    c.ult(d, l)
                };
                cond = c.bin(Op::Or, cond, t);
            }
            let kv = c.konst(w, *v as u128);
            acc = c.ite(cond, kv, acc);
        }
        mkv(acc)
    }
    fn copy(&mut self, s: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (si, so) = self.resolve(s, src, n, false)?;
        let (di, dof) = self.resolve(s, dst, n, true)?;
        let (bytes, sym) = {
            let o = s.mem.get(si).unwrap();
            let r = so as usize..(so + n) as usize;
            (o.bytes[r.clone()].to_vec(), o.sym.as_ref().map(|v| v[r].to_vec()))
        };
        let o = s.mem.get_mut(di).unwrap();
        let r = dof as usize..(dof + n) as usize;
        o.bytes[r.clone()].copy_from_slice(&bytes);
        match sym {
            Some(v) if v.iter().any(|e| *e != u32::MAX) => {
                if o.sym.is_none() {
                    o.sym = Some(vec![u32::MAX; o.size as usize]);
                }
                o.sym.as_mut().unwrap()[r].copy_from_slice(&v);
            }
            _ => {
                if let Some(t) = &mut o.sym {
                    for x in &mut t[r] {
                        *x = u32::MAX;
                    }
                }
            }
        }
        Ok(())
    }
    fn byte(&self, s: &State, a: u64) -> R<V> {
        let (id, off) = self.resolve(s, a, 1, false)?;
        Ok(self.rd(s, id, off, 1, 8))
    }
    fn cstr(&self, s: &State, a: u64, n: u64) -> String {
        let mut v = vec![];
        for k in 0..n {
            match self.byte(s, a + k) {
                Ok(V::C(c)) => v.push(c as u8),
                Ok(V::X(e)) => v.push(s.eval(e) as u8),
                _ => break,
            }
        }
        String::from_utf8_lossy(&v).into_owned()
    }
    // ---------- control ----------
    fn jump(&mut self, s: &mut State, to: u32) {
        let from = s.top.blk;
        let body = s.top.body.clone();
        let b = &body.blocks[to as usize];
        if !b.phis.is_empty() {
            if let Some(ph) = b.phis.get(&from) {
                if ph.len() == 1 {
                    let v = s.opv(&ph[0].1).clone();
                    s.set(ph[0].0, v);
                } else {
                    let vals: Vec<V> = ph.iter().map(|(_, o)| s.opv(o).clone()).collect();
                    for ((d, _), v) in ph.iter().zip(vals) {
                        s.set(*d, v);
                    }
                }
            } else {
                panic!("phi: no incoming from block");
            }
        }
        s.top.blk = to;
        s.top.ip = 0;
    }
    fn do_ret(&mut self, s: &mut State, v: Option<V>) -> R<()> {
        for a in std::mem::take(&mut s.top.allocas) {
            s.mem.remove(a);
        }
        match s.stack.pop() {
            None => {
                if s.threads.is_empty() {
                    return Err(Stop::End("return"));
                }
                // thread finished
                let cur = s.cur;
                if cur == 0 {
                    return Err(Stop::End("return"));
                }
                s.threads[cur].done = true;
                self.pick_other(s)
            }
            Some(f) => {
                let f = Rc::try_unwrap(f).unwrap_or_else(|r| (*r).clone());
                let callee = std::mem::replace(&mut s.top, f);
                if let Some(d) = callee.ret_dst {
                    s.set(d, v.unwrap_or(V::C(0)));
                }
                if let Some(n) = callee.ret_normal {
                    self.jump(s, n);
                }
                Ok(())
            }
        }
    }
    fn call_fn(&mut self, s: &mut State, f: usize, args: Vec<V>, d: Option<u32>, normal: Option<u32>) -> R<()> {
        let body = self.body(f);
        let mut regs = vec![V::C(0); body.nregs];
        for (p, v) in body.params.iter().zip(args) {
            regs[*p as usize] = v;
        }
        let fr = Frame { func: f, body, blk: 0, ip: 0, regs, allocas: vec![], ret_dst: d, ret_normal: normal };
        let old = std::mem::replace(&mut s.top, fr);
        s.stack.push(Rc::new(old));
        if s.stack.len() > 2000 {
            return Err(Stop::Viol("overflow".into(), "call stack deeper than 2000 frames".into()));
        }
        Ok(())
    }
    fn finish_call(&mut self, s: &mut State, d: Option<u32>, normal: Option<u32>, v: V) {
        if let Some(d) = d {
            s.set(d, v);
        }
        if let Some(n) = normal {
            self.jump(s, n);
        }
    }
    // ---------- threads (cooperative interleaving at atomic operations) ----------
    fn runnable(&self, s: &State, t: usize) -> bool {
        !s.threads[t].done && !(s.threads[t].parked && !s.threads[t].token) && s.threads[t].fut.is_none() && s.threads[t].join.is_none_or(|j| s.threads[j].done)
    }
    fn switch_to(&mut self, s: &mut State, t: usize) {
        if t == s.cur {
            return;
        }
        let cur = s.cur;
        let nt = s.threads[t].top.take().expect("thread frame");
        let ns = std::mem::take(&mut s.threads[t].stack);
        let ot = std::mem::replace(&mut s.top, nt);
        let os = std::mem::replace(&mut s.stack, ns);
        s.threads[cur].top = Some(ot);
        s.threads[cur].stack = os;
        s.cur = t;
    }
    /// The current thread cannot continue: nondeterministically pick another one.
    fn pick_other(&mut self, s: &mut State) -> R<()> {
        let cands: Vec<usize> = (0..s.threads.len()).filter(|t| *t != s.cur && self.runnable(s, *t)).collect();
        if cands.is_empty() {
            return Err(Stop::Viol("deadlock".into(), "no runnable thread".into()));
        }
        let k = if cands.len() == 1 { 0 } else { self.sched_choice(s, cands.len())? };
        self.switch_to(s, cands[k]);
        Ok(())
    }
    /// A fresh nondeterministic scheduling choice in 0..n, concretised by forking.
    fn sched_choice(&mut self, s: &mut State, n: usize) -> R<usize> {
        // Note: re-executed after a fork; the variable is keyed by position so this is stable.
        let k = s.nd.len() as u32;
        let e = cx().var(k, 8);
        let lim = cx().konst(8, n as u128);
        let ok = cx().ult(e, lim);
        let mut s2 = s.clone();
        s2.add_con(ok);
        if s2.eval(ok) != 1 {
            match self.sv.query(&s.cons, ok) {
                Res::Sat(a) => s2.set_model(&a),
                _ => return Err(Stop::Fatal("sched".into())),
            }
        }
        *s = s2;
        let v = self.concretize(s, &V::X(e), 8)?;
        s.nd.push(e);
        Ok(v as usize)
    }
    /// Called before every atomic access when several threads exist.
    fn preempt(&mut self, s: &mut State) -> R<()> {
        if s.threads.len() < 2 || s.sched_done {
            return Ok(());
        }
        if s.preempts >= self.max_preempt {
            return Ok(());
        }
        let mut cands: Vec<usize> = vec![s.cur];
        cands.extend((0..s.threads.len()).filter(|t| *t != s.cur && self.runnable(s, *t)));
        if cands.len() > 1 {
            let k = self.sched_choice(s, cands.len())?;
            if k != 0 {
                s.preempts += 1;
                // the current thread will execute its pending instruction when resumed
                self.switch_to(s, cands[k]);
                return Err(Stop::End("switched"));
            }
        }
        s.sched_done = true;
        Ok(())
    }
    fn new_nd(&mut self, s: &mut State, w: u32) -> R<V> {
        let k = s.nd.len();
        if k >= self.max_nd {
            return Err(Stop::Fatal("too many nondeterministic values on a path".into()));
        }
        let e = cx().var(k as u32, w);
        s.nd.push(e);
        Ok(V::X(e))
    }

    /// Run a state until it forks or ends. Forked siblings are pushed to `work`.
    pub fn run(&mut self, mut s: State, work: &mut Vec<State>, once: bool) {
        loop {
            match self.step(&mut s) {
                Ok(()) => {}
                Err(Stop::End("switched")) => {}
                Err(Stop::Fork { side, other, asg }) => {
                    self.st.forks += 1;
                    if self.profile {
                        *self.fork_sites.entry((s.top.func, s.top.blk)).or_insert(0) += 1;
                    }
                    s.depth += 1;
                    let mut t = s.clone();
                    t.add_con(other);
                    t.set_model(&asg);
                    s.add_con(side);
                    work.push(t);
                    if once {
                        work.push(s);
                        return;
                    }
                }
                Err(Stop::End(why)) => {
                    self.st.instrs += s.instrs;
                    self.st.max_path = self.st.max_path.max(s.instrs);
                    if why == "assume" {
                        self.st.paths_assume += 1;
                    } else {
                        self.st.paths_ok += 1;
                        for c in &s.covers {
                            *self.covers.entry(*c).or_insert(0) += 1;
                        }
                        let n = self.st.paths_ok;
                        if self.samples.len() < 6 || (n % 997 == 0 && self.samples.len() < 24) {
                            self.samples.push(Self::inputs(&s));
                        }
                    }
                    return;
                }
                Err(Stop::Viol(kind, msg)) => {
                    self.st.instrs += s.instrs;
                    self.st.paths_viol += 1;
                    let mut stack: Vec<String> = vec![self.m.funcs[s.top.func].name.to_string()];
                    for f in s.stack.iter().rev().take(12) {
                        stack.push(self.m.funcs[f.func].name.to_string());
                    }
                    let v = Violation { kind, msg, stack, inputs: Self::inputs(&s) };
                    self.viol.push(v);
                    return;
                }
                Err(Stop::Fatal(m)) => {
                    let mut stack: Vec<String> = vec![self.m.funcs[s.top.func].name.to_string()];
                    for f in s.stack.iter().rev().take(12) {
                        stack.push(self.m.funcs[f.func].name.to_string());
                    }
                    self.viol.push(Violation { kind: "fatal".into(), msg: m, stack, inputs: Self::inputs(&s) });
                    return;
                }
            }
        }
    }
    fn inputs(s: &State) -> Vec<(u32, u64)> {
        s.nd.iter().map(|e| (cx().w(*e), s.eval(*e) as u64)).collect()
    }

    fn step(&mut self, s: &mut State) -> R<()> {
        let body = s.top.body.clone();
        // run instructions in a tight loop while staying in this frame
        loop {
            let blk = &body.blocks[s.top.blk as usize];
            let ip = s.top.ip as usize;
            let inst = &blk.insts[ip];
            s.instrs += 1;
            if s.instrs > self.max_instr {
                return Err(Stop::Viol("budget".into(), format!("instruction budget {} exceeded (possible non-termination)", self.max_instr)));
            }
            let r = self.exec(s, inst, ip as u32)?;
            if r {
                return Ok(());
            }
        }
    }

    /// Returns Ok(true) when the frame changed (caller must refetch).
    fn exec(&mut self, s: &mut State, inst: &Inst, ip: u32) -> R<bool> {
        match inst {
            Inst::Bin { op, w, n, a, b, d } => {
                let v = {
                    let (x, y) = (s.opv(a), s.opv(b));
                    if *n == 0 {
                        if matches!(op, Bin::UDiv | Bin::SDiv | Bin::URem | Bin::SRem) {
                            if let V::C(0) = y {
                                return Err(Stop::Viol("ub".into(), "division by zero".into()));
                            }
                        }
                        bin_v(*op, *w, x, y)
                    } else {
                        V::A(Rc::new(lanes(x).iter().zip(lanes(y)).map(|(p, q)| bin_v(*op, *w, p, q)).collect()))
                    }
                };
                s.set(*d, v);
            }
            Inst::Icmp { p, w, n, a, b, d } => {
                let v = {
                    let (x, y) = (s.opv(a), s.opv(b));
                    if *n == 0 {
                        icmp_v(*p, *w, x, y)
                    } else {
                        V::A(Rc::new(lanes(x).iter().zip(lanes(y)).map(|(q, r)| icmp_v(*p, *w, q, r)).collect()))
                    }
                };
                s.set(*d, v);
            }
            Inst::Cast { k, fw, tw, n, a, d } => {
                let f = |x: &V| -> V {
                    match x {
                        V::C(c) if *fw <= 64 && *tw <= 64 => match k {
                            CastK::Trunc => V::C(c64(*tw, *c)),
                            CastK::ZExt => V::C(*c),
                            CastK::SExt => V::C(c64(*tw, sx(*c, *fw) as u64)),
                            CastK::PtrInt => V::C(c64(*tw, *c)),
                        },
                        x => {
                            let c = cx();
                            let e = ex(x, *fw);
                            mkv(match k {
                                CastK::SExt => c.sext_e(e, *tw),
                                _ => {
                                    if tw < fw {
                                        c.extract(e, 0, *tw)
                                    } else {
                                        c.zext(e, *tw)
                                    }
                                }
                            })
                        }
                    }
                };
                let v = {
                    let x = s.opv(a);
                    if *n == 0 {
                        f(x)
                    } else {
                        V::A(Rc::new(lanes(x).iter().map(f).collect()))
                    }
                };
                s.set(*d, v);
            }
            Inst::Bitcast { ft, tt, a, d } => {
                let v = self.bitcast(s.opv(a), ft, tt);
                s.set(*d, v);
            }
            Inst::Select { c, cn, a, b, ty, d } => {
                let cv = s.opv(c).clone();
                let v = if *cn > 0 {
                    let et = ty.elem(0);
                    V::A(Rc::new(
                        lanes(&cv)
                            .iter()
                            .zip(lanes(s.opv(a)).iter().zip(lanes(s.opv(b))))
                            .map(|(c, (x, y))| match c {
                                V::C(k) => {
                                    if k & 1 == 1 {
                                        x.clone()
                                    } else {
                                        y.clone()
                                    }
                                }
                                V::X(e) => ite_v(*e, x, y, &et),
                                _ => panic!(),
                            })
                            .collect(),
                    ))
                } else {
                    match &cv {
                        V::C(k) => {
                            if k & 1 == 1 {
                                s.opv(a).clone()
                            } else {
                                s.opv(b).clone()
                            }
                        }
                        V::X(e) => {
                            if *ty == Ty::Ptr {
                                if self.decide(s, *e)? {
                                    s.opv(a).clone()
                                } else {
                                    s.opv(b).clone()
                                }
                            } else {
                                ite_v(*e, s.opv(a), s.opv(b), ty)
                            }
                        }
                        _ => panic!(),
                    }
                };
                s.set(*d, v);
            }
            Inst::Load { ty, p, d, atomic, ord } => {
                if *atomic {
                    self.preempt(s)?;
                    s.atomic.set(true);
                }
                let pv = s.opv(p).clone();
                let v = self.load(s, &pv, ty);
                s.atomic.set(false);
                s.set(*d, v?);
                if *atomic {
                    self.synced(s, &pv, Some(*ord), None);
                    s.sched_done = false;
                }
            }
            Inst::Store { ty, v, p, atomic, ord } => {
                if *atomic {
                    self.preempt(s)?;
                }
                let pv = s.opv(p).clone();
                let a = self.addr(s, &pv)?;
                let val = s.opv(v).clone();
                s.atomic.set(*atomic);
                let at = self.resolve(s, a, ty.store_size(), true);
                s.atomic.set(false);
                let (id, off) = at?;
                self.store_at(s, id, off, ty, &val);
                if *atomic {
                    self.synced(s, &V::C(a), None, Some(*ord));
                    s.sched_done = false;
                }
            }
            Inst::Gep { base, off, terms, d } => {
                let mut v = s.opv(base).clone();
                if let V::A(_) = v {
                    return Err(Stop::Fatal("vector gep".into()));
                }
                if *off != 0 {
                    v = bin_v(Bin::Add, 64, &v, &V::C(*off as u64));
                }
                for (t, w, sc) in terms {
                    let x = s.opv(t);
                    let t = match x {
                        V::C(c) => V::C((sx(*c, *w)).wrapping_mul(*sc) as u64),
                        x => {
                            let c = cx();
                            let e = ex(x, *w);
                            let e = c.sext_e(e, 64);
                            let k = c.konst(64, *sc as i128 as u128);
                            mkv(c.bin(Op::Mul, e, k))
                        }
                    };
                    v = bin_v(Bin::Add, 64, &v, &t);
                }
                s.set(*d, v);
            }
            Inst::Alloca { size, count, d } => {
                let cv = s.opv(count).clone();
                let n = self.concretize(s, &cv, 64)?;
                let a = s.mem.alloc(size * n, 2, 0xAA);
                s.top.allocas.push(a >> OBJ_SHIFT);
                s.set(*d, V::C(a));
            }
            Inst::Call { f, args, rt, d, normal } => {
                return self.call(s, f, args, rt, *d, *normal, ip);
            }
            Inst::ExtractValue { a, idx, d } => {
                let mut v = s.opv(a).clone();
                for i in idx {
                    v = match v {
                        V::A(x) => x[*i as usize].clone(),
                        _ => panic!("extractvalue"),
                    };
                }
                s.set(*d, v);
            }
            Inst::InsertValue { a, v, idx, d } => {
                fn ins(a: &V, idx: &[u32], v: &V) -> V {
                    if idx.is_empty() {
                        return v.clone();
                    }
                    match a {
                        V::A(x) => {
                            let mut y = (**x).clone();
                            y[idx[0] as usize] = ins(&x[idx[0] as usize], &idx[1..], v);
                            V::A(Rc::new(y))
                        }
                        _ => panic!("insertvalue"),
                    }
                }
                let r = ins(s.opv(a), idx, s.opv(v));
                s.set(*d, r);
            }
            Inst::ExtractElement { a, i, d } => {
                let iv = s.opv(i).clone();
                let k = self.concretize(s, &iv, 64)?;
                let v = lanes(s.opv(a))[k as usize].clone();
                s.set(*d, v);
            }
            Inst::InsertElement { a, v, i, d } => {
                let iv = s.opv(i).clone();
                let k = self.concretize(s, &iv, 64)?;
                let mut x = lanes(s.opv(a)).to_vec();
                x[k as usize] = s.opv(v).clone();
                s.set(*d, V::A(Rc::new(x)));
            }
            Inst::Shuffle { a, b, mask, d } => {
                let v = {
                    let (x, y) = (lanes(s.opv(a)), lanes(s.opv(b)));
                    let n = x.len() as i64;
                    V::A(Rc::new(mask.iter().map(|m| if *m < n { x[*m as usize].clone() } else { y[(*m - n) as usize].clone() }).collect()))
                };
                s.set(*d, v);
            }
            Inst::AtomicRmw { op, ty, p, v, d, ord } => {
                self.preempt(s)?;
                let pv = s.opv(p).clone();
                let a = self.addr(s, &pv)?;
                s.atomic.set(true);
                let at = self.resolve(s, a, ty.store_size(), true);
                s.atomic.set(false);
                let (id, off) = at?;
                let old = self.load_at(s, id, off, ty);
                let x = s.opv(v).clone();
                let w = ty.width();
                let nv = match &**op {
                    "xchg" => x,
                    "add" => bin_v(Bin::Add, w, &old, &x),
                    "sub" => bin_v(Bin::Sub, w, &old, &x),
                    "and" => bin_v(Bin::And, w, &old, &x),
                    "or" => bin_v(Bin::Or, w, &old, &x),
                    "xor" => bin_v(Bin::Xor, w, &old, &x),
                    "nand" => {
                        let t = bin_v(Bin::And, w, &old, &x);
                        bin_v(Bin::Xor, w, &t, &V::C(c64(w, u64::MAX)))
                    }
                    "umax" | "umin" | "max" | "min" => {
                        let p = match &**op {
                            "umax" => Pred::Ugt,
                            "umin" => Pred::Ult,
                            "max" => Pred::Sgt,
                            _ => Pred::Slt,
                        };
                        match icmp_v(p, w, &old, &x) {
                            V::C(1) => old.clone(),
                            V::C(_) => x,
                            V::X(e) => ite_v(e, &old, &x, ty),
                            _ => panic!(),
                        }
                    }
                    o => return Err(Stop::Fatal(format!("atomicrmw {}", o))),
                };
                self.store_at(s, id, off, ty, &nv);
                self.synced(s, &V::C(a), Some(*ord), Some(*ord));
                s.set(*d, old);
                s.sched_done = false;
            }
            Inst::CmpXchg { ty, p, c, n, d, ord, ford } => {
                self.preempt(s)?;
                let pv = s.opv(p).clone();
                let a = self.addr(s, &pv)?;
                s.atomic.set(true);
                let at = self.resolve(s, a, ty.store_size(), false);
                s.atomic.set(false);
                let (id, off) = at?;
                let old = self.load_at(s, id, off, ty);
                let eq = icmp_v(Pred::Eq, ty.width(), &old, s.opv(c));
                let t = self.decide_v(s, &eq)?;
                if t {
                    s.atomic.set(true);
                    let at = self.resolve(s, a, ty.store_size(), true);
                    s.atomic.set(false);
                    at?;
                    let nv = s.opv(n).clone();
                    self.store_at(s, id, off, ty, &nv);
                }
                self.synced(s, &V::C(a), Some(if t { *ord } else { *ford }), t.then_some(*ord));
                s.set(*d, V::A(Rc::new(vec![old, V::C(t as u64)])));
                s.sched_done = false;
            }
            Inst::Mov { a, d } => {
                let v = s.opv(a).clone();
                s.set(*d, v);
            }
            Inst::Fence { ord } => {
                if s.threads.len() > 1 {
                    Rc::make_mut(&mut s.race.borrow_mut()).fence(s.cur, *ord);
                }
            }
            Inst::Br(b) => {
                self.jump(s, *b);
                return Ok(false);
            }
            Inst::CondBr { c, t, f } => {
                let cv = s.opv(c).clone();
                let b = self.decide_v(s, &cv)?;
                self.jump(s, if b { *t } else { *f });
                return Ok(false);
            }
            Inst::Switch { w, v, def, cases } => {
                let vv = s.opv(v).clone();
                let target = match &vv {
                    V::C(c) => cases.iter().find(|(k, _)| k == c).map(|x| x.1).unwrap_or(*def),
                    V::X(e) => {
                        let e = *e;
                        let val = s.eval(e) as u64;
                        let tgt = cases.iter().find(|(k, _)| *k == val).map(|x| x.1).unwrap_or(*def);
                        let c = cx();
                        let mut cond;
                        if tgt == *def {
                            cond = 1;
                            for (k, b) in cases {
                                if b != def {
                                    let kk = c.konst(*w, *k as u128);
                                    let q = c.eq(e, kk);
                                    let q = c.not(q);
                                    cond = c.bin(Op::And, cond, q);
                                }
                            }
                        } else {
                            cond = 0;
                            for (k, b) in cases {
                                if *b == tgt {
                                    let kk = c.konst(*w, *k as u128);
                                    let q = c.eq(e, kk);
                                    cond = c.bin(Op::Or, cond, q);
                                }
                            }
                        }
                        // conjunctions are split when added as constraints: test them piecewise
                        if !self.known(s, cond) {
                            if !self.decide(s, cond)? {
                                return Err(Stop::Fatal("switch".into()));
                            }
                        }
                        tgt
                    }
                    _ => panic!(),
                };
                self.jump(s, target);
                return Ok(false);
            }
            Inst::Ret(o) => {
                let v = o.as_ref().map(|o| s.opv(o).clone());
                self.do_ret(s, v)?;
                return Ok(true);
            }
            Inst::Unreachable => return Err(Stop::Viol("ub".into(), "reached unreachable code".into())),
            Inst::Unsupported(x) => return Err(Stop::Fatal(format!("unsupported instruction {}", x))),
        }
        s.top.ip = ip + 1;
        Ok(false)
    }
    fn known(&self, s: &State, e: Eid) -> bool {
        if e == 1 || s.cons.contains(&e) {
            return true;
        }
        let n = cx().n(e);
        if n.op == Op::And && n.w == 1 {
            return self.known(s, n.a) && self.known(s, n.b);
        }
        false
    }

    fn call(&mut self, s: &mut State, f: &Callee, args: &[(Opnd, Ty)], rt: &Ty, d: Option<u32>, normal: Option<u32>, ip: u32) -> R<bool> {
        match f {
            Callee::Func(fi) => {
                let name = self.m.funcs[*fi].name.clone();
                if let Some(k) = is_panic(&name) {
                    return Err(Stop::Viol("panic".into(), k));
                }
                let av: Vec<V> = args.iter().map(|(o, _)| s.opv(o).clone()).collect();
                s.top.ip = ip + 1;
                self.call_fn(s, *fi, av, d, normal)?;
                Ok(true)
            }
            Callee::Ind(o) => {
                let pv = s.opv(o).clone();
                let a = self.addr(s, &pv)?;
                if a < FUNC_BASE || a >= FUNC_BASE + 16 * self.m.funcs.len() as u64 || a % 16 != 0 {
                    return Err(Stop::Viol("memory".into(), format!("call through invalid function pointer {:#x}", a)));
                }
                let fi = ((a - FUNC_BASE) / 16) as usize;
                if self.m.funcs[fi].span.is_some() {
                    self.call(s, &Callee::Func(fi), args, rt, d, normal, ip)
                } else {
                    let n = self.m.funcs[fi].name.clone();
                    self.call(s, &Callee::Ext(n), args, rt, d, normal, ip)
                }
            }
            Callee::Asm => {
                s.top.ip = ip + 1;
                self.finish_call(s, d, normal, rt.zero());
                Ok(false)
            }
            Callee::Intr(n) => {
                let v = self.intrinsic(s, n, args, rt)?;
                s.top.ip = ip + 1;
                self.finish_call(s, d, normal, v);
                Ok(false)
            }
            Callee::Ext(n) => {
                let n = n.clone();
                let r = self.external(s, &n, args, rt, ip)?;
                match r {
                    Some(v) => {
                        s.top.ip = ip + 1;
                        self.finish_call(s, d, normal, v);
                        Ok(false)
                    }
                    None => Ok(true),
                }
            }
        }
    }
    fn intrinsic(&mut self, s: &mut State, n: &str, args: &[(Opnd, Ty)], rt: &Ty) -> R<V> {
        let b = &n[5..];
        let a = |s: &State, i: usize| -> V { s.opv(&args[i].0).clone() };
        if b.starts_with("experimental.noalias") || b.starts_with("lifetime") || b.starts_with("dbg") || b.starts_with("invariant") || b.starts_with("donothing") || b.starts_with("prefetch") || b.starts_with("x86.sse2.pause") {
            return Ok(V::C(0));
        }
        if b.starts_with("assume") {
            return Ok(V::C(0));
        }
        if b.starts_with("memcpy") || b.starts_with("memmove") {
            let nv = a(s, 2);
            let n = self.concretize(s, &nv, 64)?;
            if n == 0 {
                return Ok(V::C(0));
            }
            let (dv, sv) = (a(s, 0), a(s, 1));
            let d = self.addr(s, &dv)?;
            let sr = self.addr(s, &sv)?;
            self.copy(s, d, sr, n)?;
            return Ok(V::C(0));
        }
        if b.starts_with("memset") {
            let nv = a(s, 2);
            let n = self.concretize(s, &nv, 64)?;
            if n == 0 {
                return Ok(V::C(0));
            }
            let dv = a(s, 0);
            let d = self.addr(s, &dv)?;
            let v = a(s, 1);
            let (id, off) = self.resolve(s, d, n, true)?;
            for k in 0..n {
                self.wr(s, id, off + k, 1, 8, &v);
            }
            return Ok(V::C(0));
        }
        if b.starts_with("threadlocal.address") {
            let p = a(s, 0);
            if s.cur == 0 {
                return Ok(p);
            }
            // every thread has its own copy, initialized like the global
            let p = self.addr(s, &p)?;
            let id = p >> OBJ_SHIFT;
            let off = p & ((1 << OBJ_SHIFT) - 1);
            let base = match s.tls.get(&(s.cur, id)) {
                Some(b) => *b,
                None => {
                    let o = match self.init_mem.get(id) {
                        Some(o) => (**o).clone(),
                        None => return Err(Stop::Fatal("thread-local object".into())),
                    };
                    let nb = s.mem.alloc(o.size, 0, 0);
                    s.mem.put(nb >> OBJ_SHIFT, o);
                    Rc::make_mut(&mut s.tls).insert((s.cur, id), nb);
                    nb
                }
            };
            return Ok(V::C(base + off));
        }
        if b.starts_with("expect") {
            return Ok(a(s, 0));
        }
        if b.starts_with("is.constant") {
            return Ok(V::C(0));
        }
        if b.starts_with("trap") || b.starts_with("debugtrap") || b.starts_with("ubsantrap") {
            return Err(Stop::Viol("panic".into(), "trap".into()));
        }
        if b.starts_with("ptrmask") {
            let (x, y) = (a(s, 0), a(s, 1));
            return Ok(bin_v(Bin::And, 64, &x, &y));
        }
        if b.starts_with("objectsize") {
            return Ok(V::C(u64::MAX));
        }
        let w = if args.is_empty() { 0 } else { args[0].1.width() };
        let vec_n = if args.is_empty() { 0 } else { args[0].1.lanes() };
        // with.overflow family
        for (p, op, sg) in [("uadd.with", Bin::Add, false), ("usub.with", Bin::Sub, false), ("umul.with", Bin::Mul, false), ("sadd.with", Bin::Add, true), ("ssub.with", Bin::Sub, true), ("smul.with", Bin::Mul, true)] {
            if b.starts_with(p) {
                let (x, y) = (a(s, 0), a(s, 1));
                let r = bin_v(op, w, &x, &y);
                let c = cx();
                // compute in double width
                let dw = if op == Bin::Mul { (2 * w).min(128) } else { (w + 1).min(128) };
                if op == Bin::Mul && w > 64 || dw <= w {
                    return Err(Stop::Fatal("wide overflow op".into()));
                }
                let (e1, e2) = (ex(&x, w), ex(&y, w));
                let (p1, p2) = if sg { (c.sext_e(e1, dw), c.sext_e(e2, dw)) } else { (c.zext(e1, dw), c.zext(e2, dw)) };
                let wide = c.bin(binop(op), p1, p2);
                let re = ex(&r, w);
                let back = if sg { c.sext_e(re, dw) } else { c.zext(re, dw) };
                let eq = c.eq(wide, back);
                let ov = c.not(eq);
                return Ok(V::A(Rc::new(vec![r, mkv(ov)])));
            }
        }
        let un = |x: &V, y: Option<&V>, z: Option<&V>| -> Option<V> {
            let c = cx();
            let pick = |p: Pred, x: &V, y: &V| -> V {
                match icmp_v(p, w, x, y) {
                    V::C(1) => x.clone(),
                    V::C(_) => y.clone(),
                    V::X(e) => ite_v(e, x, y, &Ty::Int(w)),
                    _ => panic!(),
                }
            };
            if b.starts_with("umax") {
                return Some(pick(Pred::Ugt, x, y?));
            }
            if b.starts_with("umin") {
                return Some(pick(Pred::Ult, x, y?));
            }
            if b.starts_with("smax") {
                return Some(pick(Pred::Sgt, x, y?));
            }
            if b.starts_with("smin") {
                return Some(pick(Pred::Slt, x, y?));
            }
            if b.starts_with("usub.sat") {
                let y = y?;
                let dlt = bin_v(Bin::Sub, w, x, y);
                let lt = icmp_v(Pred::Ult, w, x, y);
                return Some(match lt {
                    V::C(1) => V::C(0),
                    V::C(_) => dlt,
                    V::X(e) => ite_v(e, &V::C(0), &dlt, &Ty::Int(w)),
                    _ => panic!(),
                });
            }
            if b.starts_with("uadd.sat") {
                let y = y?;
                let sum = bin_v(Bin::Add, w, x, y);
                let lt = icmp_v(Pred::Ult, w, &sum, x);
                let mx = V::C(c64(w, u64::MAX));
                return Some(match lt {
                    V::C(1) => mx,
                    V::C(_) => sum,
                    V::X(e) => ite_v(e, &mx, &sum, &Ty::Int(w)),
                    _ => panic!(),
                });
            }
            if b.starts_with("ucmp") || b.starts_with("scmp") {
                let y = y?;
                let sg = b.starts_with("scmp");
                let rw = rt.width();
                let lt = icmp_v(if sg { Pred::Slt } else { Pred::Ult }, w, x, y);
                let gt = icmp_v(if sg { Pred::Sgt } else { Pred::Ugt }, w, x, y);
                let z = c.konst(rw, 0);
                let o = c.konst(rw, 1);
                let m1 = c.konst(rw, mask(rw));
                let t = c.ite(ex(&gt, 1), o, z);
                return Some(mkv(c.ite(ex(&lt, 1), m1, t)));
            }
            if b.starts_with("abs") {
                let neg = bin_v(Bin::Sub, w, &V::C(0), x);
                let lt = icmp_v(Pred::Slt, w, x, &V::C(0));
                return Some(match lt {
                    V::C(1) => neg,
                    V::C(_) => x.clone(),
                    V::X(e) => ite_v(e, &neg, x, &Ty::Int(w)),
                    _ => panic!(),
                });
            }
            if b.starts_with("ctpop") {
                if let V::C(k) = x {
                    return Some(V::C(k.count_ones() as u64));
                }
                let e = ex(x, w);
                let mut acc = c.konst(w, 0);
                for i in 0..w {
                    let bt = c.extract(e, i, 1);
                    let z = c.zext(bt, w);
                    acc = c.bin(Op::Add, acc, z);
                }
                return Some(mkv(acc));
            }
            if b.starts_with("cttz") {
                if let V::C(k) = x {
                    return Some(V::C(if *k == 0 { w as u64 } else { k.trailing_zeros() as u64 }));
                }
                let e = ex(x, w);
                let mut acc = c.konst(w, w as u128);
                for i in (0..w).rev() {
                    let bt = c.extract(e, i, 1);
                    let k = c.konst(w, i as u128);
                    acc = c.ite(bt, k, acc);
                }
                return Some(mkv(acc));
            }
            if b.starts_with("ctlz") {
                if let V::C(k) = x {
                    return Some(V::C(if *k == 0 { w as u64 } else { k.leading_zeros() as u64 - (64 - w as u64) }));
                }
                let e = ex(x, w);
                let mut acc = c.konst(w, w as u128);
                for i in 0..w {
                    let bt = c.extract(e, i, 1);
                    let k = c.konst(w, (w - 1 - i) as u128);
                    acc = c.ite(bt, k, acc);
                }
                return Some(mkv(acc));
            }
            if b.starts_with("bswap") {
                let e = ex(x, w);
                let mut acc: Option<Eid> = None;
                for i in 0..w / 8 {
                    let bt = c.extract(e, 8 * i, 8);
                    acc = Some(match acc {
                        None => bt,
                        Some(h) => c.concat(h, bt),
                    });
                }
                return acc.map(mkv);
            }
            if b.starts_with("bitreverse") {
                let e = ex(x, w);
                let mut acc: Option<Eid> = None;
                for i in 0..w {
                    let bt = c.extract(e, i, 1);
                    acc = Some(match acc {
                        None => bt,
                        Some(h) => c.concat(h, bt),
                    });
                }
                return acc.map(mkv);
            }
            if b.starts_with("fshl") || b.starts_with("fshr") {
                let (y, z) = (y?, z?);
                let k = match z {
                    V::C(k) => (*k % w as u64) as u32,
                    _ => return None,
                };
                let (e1, e2) = (ex(x, w), ex(y, w));
                let l = b.starts_with("fshl");
                if k == 0 {
                    return Some(if l { x.clone() } else { y.clone() });
                }
                let k = if l { k } else { w - k };
                let hi = c.extract(e1, 0, w - k);
                let lo = c.extract(e2, w - k, k);
                return Some(mkv(c.concat(hi, lo)));
            }
            None
        };
        let x = a(s, 0);
        let y = if args.len() > 1 { Some(a(s, 1)) } else { None };
        let z = if args.len() > 2 { Some(a(s, 2)) } else { None };
        if vec_n > 0 {
            if b.starts_with("vector.reduce.") {
                let op = &b["vector.reduce.".len()..];
                let xs = lanes(&x).to_vec();
                let mut acc = xs[0].clone();
                for v in &xs[1..] {
                    acc = if op.starts_with("or") {
                        bin_v(Bin::Or, w, &acc, v)
                    } else if op.starts_with("and") {
                        bin_v(Bin::And, w, &acc, v)
                    } else if op.starts_with("add") {
                        bin_v(Bin::Add, w, &acc, v)
                    } else if op.starts_with("xor") {
                        bin_v(Bin::Xor, w, &acc, v)
                    } else {
                        return Err(Stop::Fatal(format!("intrinsic {}", n)));
                    };
                }
                return Ok(acc);
            }
            let xs = lanes(&x).to_vec();
            let mut out = vec![];
            for i in 0..xs.len() {
                let yy = y.as_ref().map(|v| if let V::A(q) = v { q[i].clone() } else { v.clone() });
                let zz = z.as_ref().map(|v| if let V::A(q) = v { q[i].clone() } else { v.clone() });
                match un(&xs[i], yy.as_ref(), zz.as_ref()) {
                    Some(v) => out.push(v),
                    None => return Err(Stop::Fatal(format!("intrinsic {}", n))),
                }
            }
            return Ok(V::A(Rc::new(out)));
        }
        match un(&x, y.as_ref(), z.as_ref()) {
            Some(v) => Ok(v),
            None => Err(Stop::Fatal(format!("intrinsic {}", n))),
        }
    }
    fn do_malloc(&mut self, s: &mut State, n: u64, fill: u8) -> R<V> {
        if n >= (1 << OBJ_SHIFT) {
            return Err(Stop::Viol("alloc".into(), format!("allocation of {} bytes", n)));
        }
        self.st.allocs += 1;
        Ok(V::C(s.mem.alloc(n, 3, fill)))
    }
    fn do_free(&mut self, s: &mut State, p: u64) -> R<()> {
        if p == 0 {
            return Ok(());
        }
        let id = p >> OBJ_SHIFT;
        let off = p & ((1 << OBJ_SHIFT) - 1);
        match s.mem.get(id) {
            Some(o) if id >= FIRST_OBJ && o.kind == 3 && off == 0 => {
                if s.threads.len() > 1 {
                    self.check_race(s, p, o.size, true, 3)?;
                }
                s.mem.remove(id);
                Ok(())
            }
            Some(_) if id >= FIRST_OBJ => Err(Stop::Viol("memory".into(), "free of a pointer that is not the start of a heap block".into())),
            _ => Err(Stop::Viol("memory".into(), "double free or free of an invalid pointer".into())),
        }
    }
    fn external(&mut self, s: &mut State, n: &str, args: &[(Opnd, Ty)], rt: &Ty, ip: u32) -> R<Option<V>> {
        let a = |s: &State, i: usize| -> V { s.opv(&args[i].0).clone() };
        let v = match n {
            "vz_nd_u8" => self.new_nd(s, 8)?,
            "vz_nd_u16" => self.new_nd(s, 16)?,
            "vz_nd_u32" => self.new_nd(s, 32)?,
            "vz_nd_u64" => self.new_nd(s, 64)?,
            "vz_assume" => {
                let v = a(s, 0);
                let t = icmp_v(Pred::Ne, args[0].1.width(), &v, &V::C(0));
                match t {
                    V::C(0) => return Err(Stop::End("assume")),
                    V::C(_) => V::C(0),
                    V::X(e) => {
                        if s.eval(e) != 1 {
                            match self.sv.query(&s.cons, e) {
                                Res::Sat(asg) => s.set_model(&asg),
                                Res::Unsat => return Err(Stop::End("assume")),
                                Res::Unknown => return Err(Stop::Fatal("solver unknown".into())),
                            }
                        }
                        s.add_con(e);
                        V::C(0)
                    }
                    _ => panic!(),
                }
            }
            "vz_check" => {
                // (cond: u8, msg ptr, len): assertion query
                let v = a(s, 0);
                let t = icmp_v(Pred::Ne, args[0].1.width(), &v, &V::C(0));
                self.st.checks += 1;
                let ok = match t {
                    V::C(c) => c == 1,
                    V::X(e) => self.decide(s, e)?,
                    _ => panic!(),
                };
                if !ok {
                    let (p, l) = (a(s, 1), a(s, 2));
                    let p = self.concretize(s, &p, 64)?;
                    let l = self.concretize(s, &l, 64)?;
                    return Err(Stop::Viol("property".into(), self.cstr(s, p, l)));
                }
                V::C(0)
            }
            "vz_fail" => {
                let (p, l) = (a(s, 0), a(s, 1));
                let p = self.concretize(s, &p, 64)?;
                let l = self.concretize(s, &l, 64)?;
                return Err(Stop::Viol("property".into(), self.cstr(s, p, l)));
            }
            "vz_cover" => {
                let k = a(s, 0);
                let k = self.concretize(s, &k, 32)?;
                s.covers.insert(k as u32);
                V::C(0)
            }
            "vz_concretize" => {
                let k = a(s, 0);
                V::C(self.concretize(s, &k, 64)?)
            }
            "vz_print" => {
                let (p, l) = (a(s, 0), a(s, 1));
                let p = self.concretize(s, &p, 64)?;
                let l = self.concretize(s, &l, 64)?;
                eprintln!("[vz] {}", self.cstr(s, p, l));
                V::C(0)
            }
            "vz_param" => {
                let i = a(s, 0);
                match i {
                    V::C(i) => V::C(self.params.get(i as usize).copied().unwrap_or(0)),
                    _ => return Err(Stop::Fatal("symbolic vz_param".into())),
                }
            }
            "vz_symbolic" => V::C(1),
            "vz_end" => return Err(Stop::End("return")),
            "vz_spawn" => {
                // (fn(ptr), ptr) -> thread id
                let fp = a(s, 0);
                let fp = self.addr(s, &fp)?;
                let arg = a(s, 1);
                if s.threads.is_empty() {
                    s.threads.push(Thread::new(None));
                }
                let fi = ((fp - FUNC_BASE) / 16) as usize;
                let body = self.body(fi);
                let mut regs = vec![V::C(0); body.nregs];
                if let Some(p) = body.params.first() {
                    regs[*p as usize] = arg;
                }
                let fr = Frame { func: fi, body, blk: 0, ip: 0, regs, allocas: vec![], ret_dst: None, ret_normal: None };
                s.threads.push(Thread::new(Some(fr)));
                if s.threads.len() > crate::race::NT {
                    return Err(Stop::Fatal("too many threads".into()));
                }
                let (me, t) = (s.cur, s.threads.len() - 1);
                Rc::make_mut(&mut s.race.borrow_mut()).spawn(me, t);
                V::C(s.threads.len() as u64 - 1)
            }
            "vz_join" => {
                let t = a(s, 0);
                let t = self.concretize(s, &t, 64)? as usize;
                if !s.threads[t].done {
                    // re-execute after switching away
                    s.top.ip = ip;
                    // blocked until t is done: run somebody else
                    let cur = s.cur;
                    s.threads[cur].join = Some(t);
                    let cands: Vec<usize> = (0..s.threads.len()).filter(|x| *x != s.cur && self.runnable(s, *x)).collect();
                    if cands.is_empty() {
                        return Err(Stop::Viol("deadlock".into(), "join: no runnable thread".into()));
                    }
                    let k = if cands.len() == 1 { 0 } else { self.sched_choice(s, cands.len())? };
                    self.switch_to(s, cands[k]);
                    return Ok(None);
                }
                if s.threads.len() > 1 {
                    Rc::make_mut(&mut s.race.borrow_mut()).joined(s.cur, t);
                }
                V::C(0)
            }
            "vz_tid" => V::C(s.cur as u64),
            "vz_park" => {
                if s.threads.is_empty() {
                    return Err(Stop::Viol("deadlock".into(), "park with a single thread".into()));
                }
                let cur = s.cur;
                if s.threads[cur].token {
                    s.threads[cur].token = false;
                    s.threads[cur].parked = false;
                    V::C(0)
                } else {
                    s.threads[cur].parked = true;
                    s.top.ip = ip;
                    let cands: Vec<usize> = (0..s.threads.len()).filter(|x| *x != s.cur && self.runnable(s, *x)).collect();
                    if cands.is_empty() {
                        return Err(Stop::Viol("deadlock".into(), "park: no runnable thread".into()));
                    }
                    let k = if cands.len() == 1 { 0 } else { self.sched_choice(s, cands.len())? };
                    self.switch_to(s, cands[k]);
                    return Ok(None);
                }
            }
            "vz_unpark" => {
                let t = a(s, 0);
                let t = self.concretize(s, &t, 64)? as usize;
                if t < s.threads.len() {
                    s.threads[t].token = true;
                }
                V::C(0)
            }
            "malloc" => {
                let k = a(s, 0);
                let k = self.concretize(s, &k, 64)?;
                self.do_malloc(s, k, 0xAA)?
            }
            "calloc" => {
                let (x, y) = (a(s, 0), a(s, 1));
                let x = self.concretize(s, &x, 64)?;
                let y = self.concretize(s, &y, 64)?;
                self.do_malloc(s, x.wrapping_mul(y), 0)?
            }
            "posix_memalign" => {
                let (p, k) = (a(s, 0), a(s, 2));
                let k = self.concretize(s, &k, 64)?;
                let p = self.addr(s, &p)?;
                let m = self.do_malloc(s, k, 0xAA)?;
                let (id, off) = self.resolve(s, p, 8, true)?;
                self.wr(s, id, off, 8, 64, &m);
                V::C(0)
            }
            "aligned_alloc" => {
                let k = a(s, 1);
                let k = self.concretize(s, &k, 64)?;
                self.do_malloc(s, k, 0xAA)?
            }
            "realloc" => {
                let (p, k) = (a(s, 0), a(s, 1));
                let p = self.addr(s, &p)?;
                let k = self.concretize(s, &k, 64)?;
                if p == 0 {
                    self.do_malloc(s, k, 0xAA)?
                } else {
                    let id = p >> OBJ_SHIFT;
                    let old = match s.mem.get(id) {
                        Some(o) if o.kind == 3 && p & ((1 << OBJ_SHIFT) - 1) == 0 => o.size,
                        _ => return Err(Stop::Viol("memory".into(), "realloc of an invalid pointer".into())),
                    };
                    let m = self.do_malloc(s, k, 0xAA)?;
                    if let V::C(np) = m {
                        self.copy(s, np, p, old.min(k))?;
                    }
                    self.do_free(s, p)?;
                    m
                }
            }
            "free" => {
                let p = a(s, 0);
                let p = self.addr(s, &p)?;
                self.do_free(s, p)?;
                V::C(0)
            }
            "memcpy" | "memmove" => {
                let nv = a(s, 2);
                let k = self.concretize(s, &nv, 64)?;
                let (dv, sv) = (a(s, 0), a(s, 1));
                let d = self.addr(s, &dv)?;
                let sr = self.addr(s, &sv)?;
                self.copy(s, d, sr, k)?;
                V::C(d)
            }
            "memset" => {
                let nv = a(s, 2);
                let k = self.concretize(s, &nv, 64)?;
                let dv = a(s, 0);
                let d = self.addr(s, &dv)?;
                if k > 0 {
                    let v = match a(s, 1) {
                        V::C(c) => V::C(c & 255),
                        V::X(e) => mkv(cx().extract(e, 0, 8)),
                        _ => panic!(),
                    };
                    let (id, off) = self.resolve(s, d, k, true)?;
                    for j in 0..k {
                        self.wr(s, id, off + j, 1, 8, &v);
                    }
                }
                V::C(d)
            }
            "memcmp" | "bcmp" => {
                let nv = a(s, 2);
                let k = self.concretize(s, &nv, 64)?;
                let (pv, qv) = (a(s, 0), a(s, 1));
                let p = self.addr(s, &pv)?;
                let q = self.addr(s, &qv)?;
                let c = cx();
                if n == "bcmp" {
                    let mut all = 1;
                    for j in 0..k {
                        let (x, y) = (self.byte(s, p + j)?, self.byte(s, q + j)?);
                        if let (V::C(x), V::C(y)) = (&x, &y) {
                            if x != y {
                                all = 0;
                                break;
                            }
                            continue;
                        }
                        let e = c.eq(ex(&x, 8), ex(&y, 8));
                        all = c.bin(Op::And, all, e);
                    }
                    let z = c.konst(32, 0);
                    let o = c.konst(32, 1);
                    mkv(c.ite(all, z, o))
                } else {
                    let mut acc = c.konst(32, 0);
                    let mut pairs = vec![];
                    for j in 0..k {
                        let (x, y) = (self.byte(s, p + j)?, self.byte(s, q + j)?);
                        let stop = matches!((&x, &y), (V::C(a), V::C(b)) if a != b);
                        pairs.push((x, y));
                        if stop {
                            break;
                        }
                    }
                    let o = c.konst(32, 1);
                    let m1 = c.konst(32, 0xffff_ffff);
                    for (x, y) in pairs.iter().rev() {
                        let (x, y) = (ex(x, 8), ex(y, 8));
                        let eq = c.eq(x, y);
                        let lt = c.ult(x, y);
                        let t = c.ite(lt, m1, o);
                        acc = c.ite(eq, acc, t);
                    }
                    mkv(acc)
                }
            }
            "strlen" => {
                let p = a(s, 0);
                let p = self.addr(s, &p)?;
                let mut k = 0;
                loop {
                    let b = self.byte(s, p + k)?;
                    let z = icmp_v(Pred::Eq, 8, &b, &V::C(0));
                    if self.decide_v(s, &z)? {
                        break;
                    }
                    k += 1;
                }
                V::C(k)
            }
            "memchr" | "memrchr" => {
                let (p, ch, nn) = (a(s, 0), a(s, 1), a(s, 2));
                let p = self.addr(s, &p)?;
                let k = self.concretize(s, &nn, 64)?;
                let ch = match ch {
                    V::C(c) => V::C(c & 255),
                    V::X(e) => mkv(cx().extract(e, 0, 8)),
                    _ => panic!(),
                };
                let mut r = 0;
                for j in 0..k {
                    let j = if n == "memchr" { j } else { k - 1 - j };
                    let b = self.byte(s, p + j)?;
                    let z = icmp_v(Pred::Eq, 8, &b, &ch);
                    if self.decide_v(s, &z)? {
                        r = p + j;
                        break;
                    }
                }
                V::C(r)
            }
            "write" => a(s, 2),
            "getenv" => V::C(0),
            "__errno_location" => V::C(self.errno),
            "abort" | "exit" | "_exit" => return Err(Stop::Viol("panic".into(), format!("process {}", n))),
            "pthread_self" => V::C(1 + s.cur as u64),
            "pthread_key_create" => {
                let p = a(s, 0);
                let p = self.addr(s, &p)?;
                let (id, off) = self.resolve(s, p, 4, true)?;
                self.wr(s, id, off, 4, 32, &V::C(1));
                V::C(0)
            }
            "sched_yield" | "pthread_setspecific" | "pthread_getspecific" | "pthread_key_delete" => V::C(0),
            "gettid" => V::C(1),
            "__cxa_thread_atexit_impl" => V::C(0),
            "getrandom" => {
                let (p, k) = (a(s, 0), a(s, 1));
                let p = self.addr(s, &p)?;
                let k = self.concretize(s, &k, 64)?;
                let (id, off) = self.resolve(s, p, k, true)?;
                for j in 0..k {
                    self.wr(s, id, off + j, 1, 8, &V::C(0x5a));
                }
                V::C(k)
            }
            "syscall" => {
                let nr = a(s, 0);
                let nr = self.concretize(s, &nr, 64)?;
                match nr {
                    318 => {
                        let (p, k) = (a(s, 1), a(s, 2));
                        let p = self.addr(s, &p)?;
                        let k = self.concretize(s, &k, 64)?;
                        let (id, off) = self.resolve(s, p, k, true)?;
                        for j in 0..k {
                            self.wr(s, id, off + j, 1, 8, &V::C(0x5a));
                        }
                        V::C(k)
                    }
                    186 => V::C(1 + s.cur as u64),
                    // futex
                    202 => {
                        let (p, op, val) = (a(s, 1), a(s, 2), a(s, 3));
                        let p = self.addr(s, &p)?;
                        let op = self.concretize(s, &op, 64)? & 0x7f;
                        let cur = s.cur;
                        if s.threads.is_empty() {
                            s.threads.push(Thread::new(None));
                        }
                        match op {
                            // WAIT, WAIT_BITSET
                            0 | 9 => {
                                if s.threads[cur].woken {
                                    s.threads[cur].woken = false;
                                    return Ok(Some(V::C(0)));
                                }
                                if s.threads[cur].fut.is_some() {
                                    // re-executed after a fork
                                    self.pick_other(s)?;
                                    return Ok(None);
                                }
                                if let Err(e) = self.preempt(s) {
                                    if let Stop::End("switched") = e {
                                        // `preempt` has switched threads already: rewind the caller
                                        let t = s.threads[cur].top.as_mut().expect("thread frame");
                                        t.ip = ip;
                                    }
                                    return Err(e);
                                }
                                s.atomic.set(true);
                                let v = self.load(s, &V::C(p), &Ty::Int(32));
                                s.atomic.set(false);
                                let v = v?;
                                let v = self.concretize(s, &v, 32)?;
                                let val = self.concretize(s, &val, 64)?;
                                s.sched_done = false;
                                if v as u32 != val as u32 {
                                    V::C(0)
                                } else {
                                    s.threads[cur].fut = Some(p);
                                    s.top.ip = ip;
                                    self.pick_other(s)?;
                                    return Ok(None);
                                }
                            }
                            // WAKE
                            1 => {
                                let n = self.concretize(s, &val, 64)? as u32 as i32;
                                let mut k = 0;
                                for t in 0..s.threads.len() {
                                    if k < n && s.threads[t].fut == Some(p) {
                                        s.threads[t].fut = None;
                                        s.threads[t].woken = true;
                                        k += 1;
                                    }
                                }
                                V::C(k as u64)
                            }
                            _ => return Err(Stop::Fatal(format!("futex operation {}", op))),
                        }
                    }
                    _ => return Err(Stop::Fatal(format!("syscall {}", nr))),
                }
            }
            _ => {
                if let Some(k) = is_panic(n) {
                    return Err(Stop::Viol("panic".into(), k));
                }
                return Err(Stop::Fatal(format!("external function {}", n)));
            }
        };
        let _ = rt;
        Ok(Some(v))
    }
}

pub fn is_panic(n: &str) -> Option<String> {
    for p in ["rust_begin_unwind", "9panicking19panic_cannot_unwind", "9panicking9panic_fmt", "9panicking18panic_nounwind_fmt", "9panicking14panic_nounwind", "18handle_alloc_error", "rust_foreign_exception", "7process5abort", "14abort_internal"] {
        if n.contains(p) {
            return Some(format!("panic ({})", p.trim_start_matches(|c: char| c.is_ascii_digit())));
        }
    }
    None
}

pub fn explore(e: &mut Engine, init: Vec<State>, limit_frontier: Option<usize>, deadline: Option<Instant>, max_viol: usize) -> (Vec<State>, bool) {
    let mut work: Vec<State> = init;
    let mut complete = true;
    if let Some(lim) = limit_frontier {
        // breadth-first until the frontier is large enough
        let mut q: std::collections::VecDeque<State> = work.drain(..).collect();
        let began = Instant::now();
        while let Some(s) = q.pop_front() {
            let mut out = vec![];
            e.run(s, &mut out, true);
            for t in out {
                q.push_back(t);
            }
            if q.len() >= lim || (q.len() >= 8 && began.elapsed().as_secs_f64() > 3.0) {
                break;
            }
            if let Some(d) = deadline {
                if Instant::now() > d {
                    break;
                }
            }
            if e.viol.len() >= max_viol {
                break;
            }
        }
        return (q.into_iter().collect(), true);
    }
    let mut n = 0u64;
    while let Some(s) = work.pop() {
        e.run(s, &mut work, false);
        n += 1;
        if e.viol.len() >= max_viol {
            complete = work.is_empty();
            break;
        }
        if n % 16 == 0 {
            if let Some(d) = deadline {
                if Instant::now() > d {
                    complete = false;
                    break;
                }
            }
        }
    }
    (work, complete)
}
