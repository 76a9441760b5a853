//! Happens-before data race detection along an explored interleaving (C++20 memory model, vector clocks).
use std::collections::HashMap;

pub const NT: usize = 8;
pub type Vc = [u32; NT];

fn join(a: &mut Vc, b: &Vc) {
    for i in 0..NT {
        a[i] = a[i].max(b[i]);
    }
}

#[derive(Clone, Copy, Default)]
struct Cell {
    w: Vc,  // last plain write by each thread
    r: Vc,  // last plain read
    aw: Vc, // last atomic write
    ar: Vc, // last atomic read
}

#[derive(Clone, Default)]
pub struct Race {
    vc: [Vc; NT],
    acq: [Vc; NT], // what an acquire fence would synchronise with
    rel: [Vc; NT], // clock of the last release fence
    sync: HashMap<u64, Vc>,
    cells: HashMap<u64, Cell>,
}

impl Race {
    pub fn spawn(&mut self, from: usize, t: usize) {
        if self.vc[from][from] == 0 {
            self.vc[from][from] = 1;
        }
        self.vc[t] = self.vc[from];
        self.vc[t][t] = 1;
        self.vc[from][from] += 1;
    }
    pub fn joined(&mut self, by: usize, t: usize) {
        let o = self.vc[t];
        join(&mut self.vc[by], &o);
    }
    pub fn fence(&mut self, t: usize, ord: u8) {
        if ord & 1 != 0 {
            let o = self.acq[t];
            join(&mut self.vc[t], &o);
        }
        if ord & 2 != 0 {
            self.rel[t] = self.vc[t];
            self.vc[t][t] += 1;
        }
    }
    pub fn at_load(&mut self, t: usize, a: u64, ord: u8) {
        if let Some(v) = self.sync.get(&a).copied() {
            join(&mut self.acq[t], &v);
            if ord & 1 != 0 {
                join(&mut self.vc[t], &v);
            }
        }
    }
    pub fn at_store(&mut self, t: usize, a: u64, ord: u8, rmw: bool) {
        let mut v = if ord & 2 != 0 { self.vc[t] } else { self.rel[t] };
        if rmw {
            if let Some(o) = self.sync.get(&a) {
                join(&mut v, o);
            }
        }
        self.sync.insert(a, v);
        if ord & 2 != 0 {
            self.vc[t][t] += 1;
        }
    }
    /// Returns what races with this access, if anything.
    pub fn access(&mut self, t: usize, addr: u64, n: u64, write: bool, atomic: bool) -> Option<&'static str> {
        let vc = self.vc[t];
        let late = |v: &Vc| (0..NT).any(|i| i != t && v[i] > vc[i]);
        for a in addr..addr + n {
            let c = self.cells.entry(a).or_default();
            let hit = if late(&c.w) {
                Some("a plain write")
            } else if write && late(&c.r) {
                Some("a plain read")
            } else if !atomic && late(&c.aw) {
                Some("an atomic write")
            } else if !atomic && write && late(&c.ar) {
                Some("an atomic read")
            } else {
                None
            };
            if hit.is_some() {
                return hit;
            }
            let slot = match (write, atomic) {
                (true, false) => &mut c.w,
                (false, false) => &mut c.r,
                (true, true) => &mut c.aw,
                (false, true) => &mut c.ar,
            };
            slot[t] = vc[t];
        }
        None
    }
}
