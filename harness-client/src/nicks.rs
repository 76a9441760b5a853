//! Nickname generation.
use crate::nd;
use crate::spec::{self, raw, Ty};
use vinezombie::client::nick::{from_iter, from_iter_or, NickGen, NickGenExt, NickTransformer, Suffix, SuffixStrategy, SuffixType};
use vinezombie::client::register::{default_bot_nicks, default_client_nicks, NT_FALLBACK};
use vinezombie::string::Nick;

fn any_nick(hi: usize) -> Nick<'static> {
    let v = spec::any_member(Ty::Nick, 1, hi);
    raw::nick(&v).owning()
}
/// A suffix and the strings it stands for, in order.
fn any_suffix(kinds: usize) -> (SuffixType, Vec<Vec<u8>>) {
    let set = |s: &[u8]| s.iter().map(|b| vec![*b]).collect::<Vec<_>>();
    match nd::choose(kinds) {
        0 => (SuffixType::Char('_'), set(b"_")),
        1 => (SuffixType::Base8, set(b"01234567")),
        2 => (SuffixType::NonZeroBase8, set(b"1234567")),
        3 => {
            let n = nd::choose(4);
            let v: Vec<_> = (0..n).map(|_| any_nick(2)).collect();
            let w = v.iter().map(|n| n.as_bytes().to_vec()).collect();
            (SuffixType::Choice(v), w)
        }
        4 => (SuffixType::Base16(true), set(b"0123456789ABCDEF")),
        5 => (SuffixType::Base16(false), set(b"0123456789abcdef")),
        6 => (SuffixType::NonZeroBase16(true), set(b"123456789ABCDEF")),
        7 => (SuffixType::NonZeroBase16(false), set(b"123456789abcdef")),
        8 => (SuffixType::Base10, set(b"0123456789")),
        9 => (SuffixType::NonZeroBase10, set(b"123456789")),
        10 => (SuffixType::Letter(true), set(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ")),
        _ => (SuffixType::Letter(false), set(b"abcdefghijklmnopqrstuvwxyz")),
    }
}
fn step(g: Box<dyn NickGen>) -> (Nick<'static>, Option<Box<dyn NickGen>>) {
    let p = g.peek();
    let p2 = g.peek();
    let (n, g) = g.next_nick();
    nd::check(nd::same(p.as_bytes(), n.as_bytes()) & nd::same(p2.as_bytes(), n.as_bytes()), "peek() differs from the next nick");
    nd::check(spec::member(Ty::Nick, n.as_bytes()), "an invalid nick is generated");
    (n, g)
}
/// Whether `v` is one string of every set, in order.
fn matches(v: &[u8], sets: &[Vec<Vec<u8>>]) -> bool {
    let Some((s, rest)) = sets.split_first() else { return v.is_empty() };
    if s.is_empty() {
        return matches(v, rest);
    }
    let mut r = false;
    for w in s {
        if w.len() <= v.len() {
            r |= nd::same(&v[..w.len()], w) & matches(&v[w.len()..], rest);
        }
    }
    r
}
/// Pseudorandom suffixes: one element of each suffix, whatever the seed.
pub fn h_nick_rng() {
    let base = any_nick(nd::param(2));
    let n = nd::choose(nd::param(0) + 1);
    let list: Vec<_> = (0..n).map(|_| any_suffix(12)).collect();
    let sets: Vec<_> = list.iter().map(|l| l.1.clone()).collect();
    let cfg = Suffix { strategy: SuffixStrategy::Rng(Some(nd::u32_())), suffixes: list.iter().map(|l| l.0.clone()).collect::<Vec<_>>().into() };
    let mut g = Some(cfg.transform(base.clone()));
    let mut first = true;
    for _ in 0..nd::param(1) {
        let Some(gen) = g else {
            nd::check(!first, "a generator without nicks");
            break;
        };
        let (nick, next) = step(gen);
        first = false;
        let b = nick.as_bytes();
        nd::check(b.len() >= base.len() && nd::same(&b[..base.len()], base.as_bytes()), "a generated nick lacks the original one");
        nd::check(matches(&b[base.len()..], &sets), "a generated nick has other suffixes than those configured");
        g = next;
    }
}
/// All of a generator's nicks: at least one, and an end to them.
fn drain(g: Box<dyn NickGen>, most: usize) -> Vec<Nick<'static>> {
    let mut v = vec![];
    let mut g = Some(g);
    while let Some(gen) = g {
        if v.len() == most {
            nd::fail("a generator yields more nicks than it should");
        }
        let (n, next) = step(gen);
        v.push(n);
        g = next;
    }
    v
}
fn same_list(a: &[Nick<'static>], b: &[Vec<u8>]) -> bool {
    let mut r = a.len() == b.len();
    for (x, y) in a.iter().zip(b) {
        r &= nd::same(x.as_bytes(), y);
    }
    r
}
/// Sequential suffixes: all values of the first suffix, then of the first two, and so on.
fn sequence(base: &[u8], sets: &[Vec<Vec<u8>>]) -> Vec<Vec<u8>> {
    let sets: Vec<_> = sets.iter().filter(|s| !s.is_empty()).collect();
    let total: usize = sets.iter().map(|s| s.len()).sum::<usize>().min(255).max(1);
    let mut out = vec![];
    if sets.is_empty() {
        out.push(base.to_vec());
    }
    for k in 1..=sets.len() {
        let mut idx = vec![0; k];
        'k: loop {
            let mut v = base.to_vec();
            for i in 0..k {
                v.extend_from_slice(&sets[i][idx[i]]);
            }
            out.push(v);
            if out.len() == total {
                return out;
            }
            for i in 0..k {
                idx[i] += 1;
                if idx[i] < sets[i].len() {
                    continue 'k;
                }
                idx[i] = 0;
            }
            break;
        }
    }
    out.truncate(total);
    out
}
pub fn h_nick_seq() {
    let base = any_nick(nd::param(1));
    let n = nd::choose(nd::param(0) + 1);
    let list: Vec<_> = (0..n).map(|_| any_suffix(nd::param(2))).collect();
    let sets: Vec<_> = list.iter().map(|l| l.1.clone()).collect();
    let cfg = Suffix { strategy: SuffixStrategy::Seq, suffixes: list.iter().map(|l| l.0.clone()).collect::<Vec<_>>().into() };
    let got = drain(cfg.transform(base.clone()), 255);
    nd::check(same_list(&got, &sequence(base.as_bytes(), &sets)), "sequential suffixes differ");
}
struct Made {
    g: Box<dyn NickGen>,
    all: Vec<Vec<u8>>,
}
fn any_gen(depth: usize) -> Made {
    match nd::choose(if depth > 0 { 4 } else { 3 }) {
        0 => {
            let n = any_nick(2);
            Made { all: vec![n.as_bytes().to_vec()], g: Box::new(n) }
        }
        1 => {
            let v: Vec<_> = (0..nd::choose(3)).map(|_| any_nick(1)).collect();
            let all: Vec<_> = v.iter().map(|n| n.as_bytes().to_vec()).collect();
            if nd::flip() {
                let g = from_iter(v);
                nd::check(g.is_some() == !all.is_empty(), "a generator from a list exists exactly if the list is not empty");
                match g {
                    Some(g) => Made { g: Box::new(g), all },
                    None => unsafe { nd::vz_end() },
                }
            } else {
                let d = any_nick(1);
                let all = if all.is_empty() { vec![d.as_bytes().to_vec()] } else { all };
                Made { g: Box::new(from_iter_or(d, v)), all }
            }
        }
        2 => {
            let base = any_nick(1);
            let cfg = Suffix { strategy: SuffixStrategy::Seq, suffixes: vec![SuffixType::Char('_'), SuffixType::Char('_')].into() };
            let mut x = base.as_bytes().to_vec();
            x.push(b'_');
            let mut y = x.clone();
            y.push(b'_');
            Made { g: cfg.transform(base), all: vec![x, y] }
        }
        _ => {
            let a = any_gen(depth - 1);
            if nd::flip() {
                let b = any_gen(depth - 1);
                let mut all = a.all;
                all.extend(b.all);
                Made { g: Box::new(a.g).chain(b.g), all }
            } else {
                let cfg = Suffix { strategy: SuffixStrategy::Seq, suffixes: vec![SuffixType::Char('_')].into() };
                let mut x = a.all[0].clone();
                x.push(b'_');
                let mut all = a.all;
                all.push(x);
                Made { g: Box::new(a.g).chain_using(&cfg), all }
            }
        }
    }
}
/// Chains and lists yield exactly the nicks they are made of, in order.
pub fn h_nick_chain() {
    let m = any_gen(nd::param(0));
    let got = drain(m.g, 20);
    nd::check(same_list(&got, &m.all), "generated nicks differ");
}
/// A nick the server calls invalid is neither tried again nor suffixed; all others remain.
pub fn h_nick_invalid() {
    let bad = any_nick(2);
    let is_bad = |n: &[u8]| nd::same(n, bad.as_bytes());
    let single = |n: Nick<'static>| -> (Box<dyn NickGen>, Vec<Vec<u8>>) {
        let keep = if is_bad(n.as_bytes()) { vec![] } else { vec![n.as_bytes().to_vec()] };
        (Box::new(n), keep)
    };
    let suffixed = |n: Nick<'static>| -> (Box<dyn NickGen>, Vec<Vec<u8>>) {
        let cfg = Suffix { strategy: SuffixStrategy::Seq, suffixes: vec![SuffixType::Char('_')].into() };
        let mut x = n.as_bytes().to_vec();
        // nicks with the bad nick's beginning are derived from it
        let derived = n.len() <= bad.len() && nd::same(n.as_bytes(), &bad.as_bytes()[..n.len()]);
        x.push(b'_');
        (cfg.transform(n), if derived { vec![] } else { vec![x] })
    };
    let part = |k: usize| match k {
        0 => single(any_nick(2)),
        _ => suffixed(any_nick(2)),
    };
    let (mut g, mut want) = part(nd::choose(2));
    for _ in 0..nd::choose(nd::param(0)) {
        let (g2, w2) = part(nd::choose(2));
        g = Box::new(g).chain(g2);
        want.extend(w2);
    }
    match g.handle_invalid(&bad) {
        None => nd::check(want.is_empty(), "an invalid nick takes valid ones with it"),
        Some(g) => {
            let got = drain(g, 10);
            nd::check(same_list(&got, &want), "after an invalid nick, the remaining nicks differ");
        }
    }
}
/// The defaults for clients and bots: the configured nicks first, then fallbacks.
pub fn h_nick_defaults() {
    let n = nd::choose(nd::param(0) + 1);
    let v: Vec<_> = (0..n).map(|_| any_nick(2)).collect();
    let bot = nd::flip();
    let mut g = Some(if bot { default_bot_nicks(v.clone()) } else { default_client_nicks(v.clone()) });
    for i in 0..n {
        let Some(gen) = g else { nd::fail("a configured nick is not tried") };
        let (x, next) = step(gen);
        nd::check(nd::same(x.as_bytes(), v[i].as_bytes()), "configured nicks are tried out of order");
        g = next;
    }
    if n == 0 && !bot {
        let Some(gen) = g else { nd::fail("no nick") };
        let (x, next) = step(gen);
        nd::check(x == "Guest", "the default nick differs");
        g = next;
    }
    let base: Vec<u8> = if bot {
        b"VNZB".to_vec()
    } else if n == 0 {
        b"Guest".to_vec()
    } else {
        v[0].as_bytes().to_vec()
    };
    let Some(gen) = g else { nd::fail("there are no fallback nicks") };
    if !bot && n > 0 {
        let got = drain(NT_FALLBACK.transform(v[0].clone()), 255);
        let d10: Vec<Vec<u8>> = b"0123456789".iter().map(|b| vec![*b]).collect();
        let want = sequence(&base, &[vec![vec![b'`']], d10.clone(), d10[..8].to_vec()]);
        nd::check(same_list(&got, &want), "fallback nicks differ");
        let got = drain(gen, 255);
        nd::check(same_list(&got, &want), "fallback nicks differ");
    } else {
        let mut g = Some(gen);
        let mut i = 0;
        while let Some(gen) = g {
            if i == nd::param(1) {
                break;
            }
            let (x, next) = step(gen);
            nd::check(x.len() > base.len() && nd::same(&x.as_bytes()[..base.len()], &base), "fallback nicks differ");
            g = next;
            i += 1;
        }
        nd::check(i > 0, "there are no fallback nicks");
    }
}
