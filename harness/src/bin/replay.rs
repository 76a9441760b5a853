//! Native replay of one recorded assignment: `replay ENTRY P0,P1,.. v,v,v,..`
//! exit 0: held; 10: assertion failed (message on stdout); 11: assumption not met;
//! 12: input exhausted; anything else (signals, panics): crash.
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let list = |s: &str| -> Vec<u64> {
        s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
    };
    vzh::native::init(list(&a[2]), list(&a[3]));
    for (n, f) in vzh::ENTRIES {
        if *n == a[1] {
            f();
            println!("HELD");
            return;
        }
    }
    eprintln!("no such entry");
    std::process::exit(13);
}
