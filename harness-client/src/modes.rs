//! Channel modes: letters, sets, and the classification advertised by the server.
use crate::nd;
use std::num::NonZeroU8;
use vinezombie::names::{isupport, ISupport, NameMap};
use vinezombie::state::*;
use vinezombie::string::{Arg, Key, Word};

fn is_letter(b: u8) -> bool {
    ((b >= b'a') & (b <= b'z')) | ((b >= b'A') & (b <= b'Z'))
}
/// A symbolic mode letter.
fn letter() -> u8 {
    let b = nd::u8_();
    nd::assume(is_letter(b));
    b
}
fn mode(b: u8) -> Mode {
    match Mode::new(b) {
        Some(m) => m,
        None => nd::fail("a letter is not accepted as a mode"),
    }
}
/// Position in the documented order: alphabetical first, lowercase before uppercase.
fn rank(b: u8) -> u32 {
    let low = b | 32;
    (((low - b'a') as u32) << 1) | ((b & 32 == 0) as u32)
}

pub fn h_mode() {
    let b = nd::u8_();
    let m = Mode::new(b);
    nd::check(m.is_some() == is_letter(b), "Mode::new accepts something other than ASCII letters");
    let Some(m) = m else { return };
    nd::check(m.into_nonzero_u8().get() == b, "mode letter changed");
    nd::check(u8::from(m) == b, "mode letter changed");
    nd::check(NonZeroU8::from(m).get() == b, "mode letter changed");
    nd::check(m.into_char() as u32 == b as u32, "mode letter changed");
    nd::check(char::from(m) as u32 == b as u32, "mode letter changed");
    let a: Arg<'_> = m.into();
    nd::check(nd::same(a.as_bytes(), &[b]), "mode argument differs");
    let c = letter();
    let n = mode(c);
    nd::check((m == n) == (b == c), "mode equality differs");
    nd::check((m < n) == (rank(b) < rank(c)), "mode order differs");
    nd::check((m > n) == (rank(b) > rank(c)), "mode order differs");
    let s = m.to_string();
    nd::check(nd::same(s.as_bytes(), &[b]), "mode text differs");
}

/// A history of set/unset operations, evaluated for one probe letter.
struct Hist(Vec<(bool, u8)>);
impl Hist {
    fn has_at(&self, upto: usize, p: u8) -> bool {
        let mut r = false;
        for &(on, b) in &self.0[..upto] {
            let eq = b == p;
            r = (eq & on) | (!eq & r);
        }
        r
    }
    fn has(&self, p: u8) -> bool {
        self.has_at(self.0.len(), p)
    }
    fn len(&self) -> usize {
        let mut c = 0usize;
        for i in 0..self.0.len() {
            let b = self.0[i].1;
            let mut first = true;
            for j in 0..i {
                first &= self.0[j].1 != b;
            }
            c += (first & self.has(b)) as usize;
        }
        c
    }
}
fn build(n: usize) -> (ModeSet, Hist) {
    let mut h = Hist(vec![]);
    let mut s = ModeSet::new();
    for i in 0..n {
        let b = letter();
        match nd::choose(3) {
            0 => {
                let before = h.has(b);
                nd::check(s.set(mode(b)) == !before, "set() reports the wrong change");
                h.0.push((true, b));
            }
            1 => {
                let before = h.has(b);
                nd::check(s.unset(mode(b)) == before, "unset() reports the wrong change");
                h.0.push((false, b));
            }
            _ => {
                s = s.with(mode(b));
                h.0.push((true, b));
            }
        }
        nd::check(s.contains(mode(b)) == h.0[i].0, "set does not reflect the last operation");
    }
    (s, h)
}
fn check_set(s: ModeSet, has: impl Fn(u8) -> bool, what: &str) {
    let p = letter();
    nd::check(s.contains(mode(p)) == has(p), what);
}
pub fn h_modeset() {
    let (a, ha) = build(nd::param(0));
    let (b, hb) = build(nd::param(1));
    check_set(a, |p| ha.has(p), "membership differs");
    check_set(a.union(b), |p| ha.has(p) | hb.has(p), "union differs");
    check_set(a.intersection(b), |p| ha.has(p) & hb.has(p), "intersection differs");
    check_set(a.difference(b), |p| ha.has(p) & !hb.has(p), "difference differs");
    // equality and inclusion
    let mut sub = true;
    let mut sup = true;
    for &(_, x) in &ha.0 {
        sub &= !ha.has(x) | hb.has(x);
    }
    for &(_, x) in &hb.0 {
        sup &= !hb.has(x) | ha.has(x);
    }
    nd::check((a == b) == (sub & sup), "set equality differs");
    use std::cmp::Ordering::*;
    let o = a.partial_cmp(&b);
    nd::check((o == Some(Equal)) == (sub & sup), "set comparison differs");
    nd::check((o == Some(Less)) == (sub & !sup), "set comparison differs");
    nd::check((o == Some(Greater)) == (!sub & sup), "set comparison differs");
    nd::check(o.is_none() == (!sub & !sup), "set comparison differs");
}
/// Sizes and iteration; `concrete` forks over every letter instead of keeping it symbolic.
pub fn h_modeset_iter() {
    let k = nd::param(0);
    let concrete = nd::param(1) != 0;
    let mut h = Hist(vec![]);
    let mut a = ModeSet::new();
    for _ in 0..k {
        let mut b = letter();
        if concrete {
            b = unsafe { nd::vz_concretize(b as u64) } as u8;
        }
        a.set(mode(b));
        h.0.push((true, b));
    }
    let ha = h;
    nd::check(a.len() == ha.len(), "number of modes differs");
    nd::check(a.is_empty() == (ha.len() == 0), "emptiness differs");
    // iteration, in both directions
    let mut it = a.into_iter();
    let n = a.len();
    nd::check(it.len() == n, "iterator length differs");
    let mut v: Vec<u8> = vec![];
    while let Some(m) = it.next() {
        if v.len() > ha.0.len() {
            nd::fail("iteration yields too many modes");
        }
        let l: u8 = m.into();
        nd::check(is_letter(l), "iteration yields a non-letter");
        nd::check(ha.has(l), "iteration yields a mode that is not set");
        if let Some(&q) = v.last() {
            nd::check(rank(q) < rank(l), "iteration is not in mode order");
        }
        v.push(l);
    }
    nd::check(v.len() == n, "iteration yields the wrong number of modes");
    let w: Vec<u8> = a.into_iter().rev().map(u8::from).collect();
    nd::check(w.len() == n, "reverse iteration yields the wrong number of modes");
    for i in 0..w.len() {
        nd::check(w[i] == v[n - 1 - i], "reverse iteration differs");
    }
    let c: ModeSet = v.iter().map(|b| mode(*b)).collect();
    nd::check(c == a, "collecting the iterated modes gives another set");
    let t = a.to_string();
    nd::check(nd::same(t.as_bytes(), &v), "text of the set differs");
}

const TYPES: [ModeType; 4] = [ModeType::TypeA, ModeType::TypeB, ModeType::TypeC, ModeType::TypeD];

/// Fields of a CHANMODES value; what follows the fourth field is returned too.
fn fields(v: &[u8]) -> (Vec<Vec<u8>>, usize) {
    let mut f = vec![vec![]];
    let mut i = 0;
    while i < v.len() {
        if v[i] == b',' {
            if f.len() == 4 {
                return (f, i + 1);
            }
            f.push(vec![]);
        } else {
            f.last_mut().unwrap().push(v[i]);
        }
        i += 1;
    }
    (f, i)
}
fn in_fields(f: &[Vec<u8>], p: u8) -> [bool; 4] {
    let mut r = [false; 4];
    for i in 0..f.len() {
        r[i] = nd::any(&f[i], |b| b == p);
    }
    r
}
/// What the four fields say about `p`: (type index if in exactly one field, in more than one).
fn check_types(t: &ModeTypes, ov: &ModeSet, f: &[Vec<u8>], p: u8) {
    let r = in_fields(f, p);
    let n = r.iter().map(|b| *b as u8).sum::<u8>();
    let got = t.get(mode(p));
    nd::check(ov.contains(mode(p)) == (n > 1), "overlapping modes differ");
    nd::check(got.is_some() == (n == 1), "a mode's type is known exactly if one field lists it");
    if let Some(g) = got {
        for i in 0..4 {
            nd::check((g == TYPES[i]) == r[i], "mode has the wrong type");
        }
    }
}
pub fn h_modetypes() {
    let mut v = vec![];
    for i in 0..nd::param(1) {
        if nd::flip() {
            v.push(b"abc"[i]);
        }
        v.push(b',');
    }
    v.extend_from_slice(&nd::upto(nd::param(0)));
    let (f, at) = fields(&v);
    let (t, ov, rest) = ModeTypes::parse(&v);
    nd::check(nd::same(rest, &v[at..]), "rest of the mode string differs");
    check_types(&t, &ov, &f, letter());
    // as an ISUPPORT token
    if nd::all(&v, crate::spec::word) {
        let val: Word<'static> = crate::spec::raw::word(&v).owning();
        use vinezombie::names::NameValued;
        let x = <isupport::CHANMODES as NameValued<ISupport>>::from_union(&(Key::from_str("CHANMODES"), val));
        nd::check(x.is_ok() && x.unwrap() == t, "CHANMODES token differs");
    }
}
/// One letter (or none) per type.
fn typed_sets(used: usize) -> ([ModeSet; 4], [Vec<u8>; 4]) {
    let mut own: [Vec<u8>; 4] = Default::default();
    let mut sets = [ModeSet::new(); 4];
    for i in 0..used {
        if nd::flip() {
            let b = letter();
            sets[i].set(mode(b));
            own[i].push(b);
        }
    }
    (sets, own)
}
pub fn h_modetypes_sets() {
    let (sets, own) = typed_sets(4);
    let (t, ov) = ModeTypes::from_sets(sets[0], sets[1], sets[2], sets[3]);
    check_types(&t, &ov, &own, letter());
}
pub fn h_modetypes_edit() {
    let b = letter();
    let was = nd::choose(5);
    let mut t = ModeTypes::new();
    if was < 4 {
        t = ModeTypes::from_set(ModeSet::new().with(mode(b)), TYPES[was]);
        let p = letter();
        nd::check(t.get(mode(p)) == (p == b).then_some(TYPES[was]), "from_set() differs");
    }
    let p = letter();
    let before = t.get(mode(p));
    let ty = nd::choose(4);
    let q = letter();
    if nd::flip() {
        t.insert(mode(q), TYPES[ty]);
        nd::check(t.get(mode(q)) == Some(TYPES[ty]), "insert() does not set the type");
        nd::check(p == q || t.get(mode(p)) == before, "insert() changes another mode");
    } else {
        let q2 = letter();
        t.insert_set(ModeSet::new().with(mode(q)).with(mode(q2)), TYPES[ty]);
        nd::check(t.get(mode(q)) == Some(TYPES[ty]), "insert_set() does not set the type");
        nd::check(t.get(mode(q2)) == Some(TYPES[ty]), "insert_set() does not set the type");
        nd::check(p == q || p == q2 || t.get(mode(p)) == before, "insert_set() changes another mode");
    }
}
/// Text of the types; letters are concretised, so this forks over them.
pub fn h_modetypes_text() {
    let mut t = ModeTypes::new();
    for _ in 0..nd::param(0) {
        let b = unsafe { nd::vz_concretize(letter() as u64) } as u8;
        t.insert(mode(b), TYPES[nd::choose(4)]);
    }
    let text = t.to_string();
    let (u, ov2, rest2) = ModeTypes::parse(text.as_bytes());
    nd::check(u == t && ov2.is_empty() && rest2.is_empty(), "text of the types does not parse back");
}

/// Reference reading of a PREFIX value.
fn ref_prefix(v: &[u8]) -> Option<Vec<(u8, u8)>> {
    if v.is_empty() || v[0] != b'(' {
        return None;
    }
    let mut end = 1;
    while end < v.len() && v[end] != b')' {
        end += 1;
    }
    if end == v.len() {
        return None;
    }
    let (modes, pre) = (&v[1..end], &v[end + 1..]);
    let mut out: Vec<(u8, u8)> = vec![];
    let mut none = false;
    for i in 0..modes.len() {
        let p = if !none && i < pre.len() && pre[i] < 128 {
            pre[i]
        } else {
            none = true;
            0
        };
        if !is_letter(modes[i]) {
            continue;
        }
        for &(m, q) in &out {
            if m == modes[i] {
                return None;
            }
            if p != 0 && q == p {
                return None;
            }
        }
        out.push((modes[i], p));
    }
    Some(out)
}
fn check_status(s: &StatusModes, r: &[(u8, u8)]) {
    let p = letter();
    let mut has = false;
    let mut pre = 0u8;
    for &(m, q) in r {
        let eq = m == p;
        has |= eq;
        pre = if eq { q } else { pre };
    }
    nd::check(s.contains(mode(p)) == has, "status mode membership differs");
    let g = s.get_prefix(mode(p)).map(|v| v.get()).unwrap_or(0);
    nd::check(g == pre, "status prefix differs");
    let c = nd::u8_();
    nd::assume(c != 0);
    let mut want = 0u8;
    for &(m, q) in r {
        want = if q == c { m } else { want };
    }
    let g = s.get_mode(NonZeroU8::new(c).unwrap()).map(u8::from).unwrap_or(0);
    nd::check(g == want, "mode of a status prefix differs");
}
/// The grammar's fixed parts are pinned so that the budget goes to modes and prefixes.
fn prefix_value(n: usize, k: usize) -> Vec<u8> {
    let mut v = vec![];
    if nd::flip() {
        v.extend(nd::upto(n));
    } else {
        v.push(b'(');
        v.extend(nd::upto(k));
        v.push(b')');
        v.extend(nd::upto(k));
    }
    v
}
pub fn h_statusmodes() {
    let v = prefix_value(nd::param(0), nd::param(1));
    let r = ref_prefix(&v);
    match (StatusModes::parse(&v), r) {
        (Ok(s), Some(r)) => check_status(&s, &r),
        (Err(_), None) => {}
        (Ok(_), None) => nd::fail("malformed PREFIX value accepted"),
        (Err(_), Some(_)) => nd::fail("well-formed PREFIX value rejected"),
    }
}
pub fn h_chanmodes() {
    let mut m: NameMap<ISupport> = NameMap::new();
    let a = nd::upto(nd::param(0));
    nd::assume(nd::all(&a, crate::spec::word));
    let with_a = nd::flip();
    let with_b = nd::flip();
    let mut b = vec![b'('];
    b.extend(nd::upto(nd::param(1)));
    b.push(b')');
    nd::assume(nd::all(&b, crate::spec::word));
    {
        let mut g = m.edit();
        if with_b {
            g.insert((Key::from_str("PREFIX"), crate::spec::raw::word(&b).owning()), ());
        }
        if with_a {
            g.insert((Key::from_str("CHANMODES"), crate::spec::raw::word(&a).owning()), ());
        }
    }
    let s = ServerChanModes::from_isupport(&m);
    let p = letter();
    let got = s.get(mode(p));
    let status = with_b && ref_prefix(&b).is_some_and(|r| r.iter().any(|x| x.0 == p));
    if status {
        nd::check(got == Some(ModeType::Status), "status mode not classified as such");
    } else if with_a {
        let r = in_fields(&fields(&a).0, p);
        let n = r.iter().map(|b| *b as u8).sum::<u8>();
        nd::check(got.is_some() == (n == 1), "a mode's type is known exactly if one field lists it");
        if let Some(g) = got {
            for i in 0..4 {
                nd::check((g == TYPES[i]) == r[i], "mode has the wrong type");
            }
        }
    } else {
        nd::check(got.is_none(), "mode known from nowhere");
    }
    for t in [ModeType::TypeA, ModeType::TypeB, ModeType::TypeC, ModeType::TypeD, ModeType::Status] {
        let (set, unset) = match t {
            ModeType::TypeA | ModeType::TypeB | ModeType::Status => (true, true),
            ModeType::TypeC => (true, false),
            ModeType::TypeD => (false, false),
        };
        nd::check(t.needs_arg_to_set() == set && t.needs_arg_to_unset() == unset, "argument rules of a mode type differ");
        nd::check(t.is_listlike() == matches!(t, ModeType::TypeA | ModeType::Status), "list-likeness of a mode type differs");
    }
}
