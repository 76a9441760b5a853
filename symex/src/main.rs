mod exec;
mod expr;
mod ir;
mod race;
mod solver;
use exec::*;
use std::io::Write;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}
fn inputs_json(v: &[(u32, u64)]) -> String {
    let x: Vec<String> = v.iter().map(|(w, v)| format!("[{},{}]", w, v)).collect();
    format!("[{}]", x.join(","))
}

fn report(e: &Engine, complete: bool, wall: f64) -> String {
    let mut o = String::new();
    o.push_str("{");
    o.push_str(&format!("\"complete\":{},\"wall\":{:.3},", complete, wall));
    let st = &e.st;
    o.push_str(&format!(
        "\"paths_ok\":{},\"paths_assume\":{},\"paths_viol\":{},\"forks\":{},\"instrs\":{},\"checks\":{},\"max_path\":{},",
        st.paths_ok, st.paths_assume, st.paths_viol, st.forks, st.instrs, st.checks, st.max_path
    ));
    let q = &e.sv.st;
    o.push_str(&format!(
        "\"queries\":{},\"cached\":{},\"sat\":{},\"unsat\":{},\"solver_s\":{:.3},\"solver_max_s\":{:.3},",
        q.queries, q.cached, q.sat, q.unsat, q.time, q.max_time
    ));
    let fs: Vec<String> = e.used.iter().enumerate().filter(|(_, u)| **u).map(|(i, _)| format!("\"{}\"", esc(&e.m.funcs[i].name))).collect();
    o.push_str(&format!("\"functions\":[{}],", fs.join(",")));
    let cv: Vec<String> = e.covers.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    o.push_str(&format!("\"covers\":{{{}}},", cv.join(",")));
    let sm: Vec<String> = e.samples.iter().map(|s| inputs_json(s)).collect();
    o.push_str(&format!("\"samples\":[{}],", sm.join(",")));
    let vs: Vec<String> = e
        .viol
        .iter()
        .map(|v| {
            let st: Vec<String> = v.stack.iter().map(|s| format!("\"{}\"", esc(s))).collect();
            format!("{{\"kind\":\"{}\",\"msg\":\"{}\",\"stack\":[{}],\"inputs\":{}}}", esc(&v.kind), esc(&v.msg), st.join(","), inputs_json(&v.inputs))
        })
        .collect();
    o.push_str(&format!("\"violations\":[{}]", vs.join(",")));
    o.push_str("}\n");
    o
}

fn real_main() {
    let args: Vec<String> = std::env::args().collect();
    let mut ll = String::new();
    let mut entry = String::new();
    let mut out = String::new();
    let mut jobs = 1usize;
    let mut tl = 600u64;
    let mut maxi = 50_000_000u64;
    let mut maxv = 1usize;
    let mut preempt = 2u32;
    let mut race = true;
    let mut frontier = 0usize;
    let mut profile = false;
    let mut params: Vec<u64> = vec![];
    let mut i = 1;
    while i < args.len() {
        let a = &args[i];
        let nx = || args[i + 1].clone();
        match a.as_str() {
            "--ll" => ll = nx(),
            "--entry" => entry = nx(),
            "--out" => out = nx(),
            "--jobs" => jobs = nx().parse().unwrap(),
            "--time" => tl = nx().parse().unwrap(),
            "--max-instr" => maxi = nx().parse().unwrap(),
            "--max-viol" => maxv = nx().parse().unwrap(),
            "--race" => race = nx() == "1",
            "--preempt" => preempt = nx().parse().unwrap(),
            "--frontier" => frontier = nx().parse().unwrap(),
            "--params" => params = nx().split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
            "--profile" => {
                profile = true;
                i -= 1;
            }
            x => panic!("bad arg {}", x),
        }
        i += 2;
    }
    let t0 = Instant::now();
    let m = ir::Module::load(&ll);
    let mut e = Engine::new(m, 60_000);
    e.max_instr = maxi;
    e.max_preempt = preempt;
    e.races = race;
    e.profile = profile;
    e.params = params;
    let s = e.init(&entry);
    let deadline = t0 + Duration::from_secs(tl);
    if frontier == 0 {
        frontier = jobs * 48;
    }
    let mut reports = vec![];
    let mut complete = true;
    if jobs > 1 {
        let (fr, _) = explore(&mut e, vec![s], Some(frontier), Some(deadline), maxv);
        if !fr.is_empty() && e.viol.len() < maxv {
            let n = fr.len();
            let ctr = unsafe {
                let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
                &*(p as *const std::sync::atomic::AtomicUsize)
            };
            let stop = unsafe { &*((ctr as *const _ as *const u8).add(64) as *const std::sync::atomic::AtomicUsize) };
            let mut kids = vec![];
            for j in 0..jobs.min(n) {
                let pid = unsafe { fork() };
                if pid == 0 {
                    e.st = Stats::default();
                    e.sv.st = Default::default();
                    e.samples.clear();
                    e.covers.clear();
                    let mut comp = true;
                    loop {
                        let k = ctr.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        if k >= n {
                            break;
                        }
                        if stop.load(std::sync::atomic::Ordering::SeqCst) != 0 {
                            comp = false;
                            break;
                        }
                        let (_, c) = explore(&mut e, vec![fr[k].clone()], None, Some(deadline), maxv);
                        comp &= c;
                        if e.viol.len() >= maxv {
                            stop.store(1, std::sync::atomic::Ordering::SeqCst);
                            comp = false;
                            break;
                        }
                        if Instant::now() > deadline {
                            comp = false;
                            break;
                        }
                    }
                    let r = report(&e, comp, t0.elapsed().as_secs_f64());
                    let mut f = std::fs::File::create(format!("{}.{}", out, j)).unwrap();
                    f.write_all(r.as_bytes()).unwrap();
                    drop(f);
                    unsafe { _exit(0) }
                }
                kids.push(pid);
            }
            for (j, pid) in kids.iter().enumerate() {
                let mut st = 0;
                unsafe { waitpid(*pid, &mut st, 0) };
                if st != 0 {
                    complete = false;
                    eprintln!("worker {} failed: status {:#x}", j, st);
                }
                let p = format!("{}.{}", out, j);
                if let Ok(t) = std::fs::read_to_string(&p) {
                    reports.push(t);
                } else {
                    complete = false;
                }
                let _ = std::fs::remove_file(&p);
            }
        }
    } else {
        let (_, c) = explore(&mut e, vec![s], None, Some(deadline), maxv);
        complete = c;
    }
    if profile {
        let mut v: Vec<_> = e.fork_sites.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for ((f, b), n) in v.iter().take(25) {
            eprintln!("{:8} {} block {}", n, e.m.funcs[*f].name, b);
        }
    }
    reports.insert(0, report(&e, complete, t0.elapsed().as_secs_f64()));
    let r = format!("[{}]", reports.join(","));
    if out.is_empty() {
        println!("{}", r);
    } else {
        std::fs::write(&out, r).unwrap();
    }
}

fn main() {
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    if h.join().is_err() {
        std::process::exit(3);
    }
}
