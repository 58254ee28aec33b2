#![allow(dead_code)]
include!(concat!(env!("OUT_DIR"), "/mods.rs"));
#[path = "../../core/src/util.rs"]
mod util;
mod names;
mod reject;
use util::*;

pub type Res = Result<(), String>;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: u64| a.iter().position(|x| x == k).map(|i| a[i + 1].parse().unwrap()).unwrap_or(d);
    let prop = a[1].clone();
    if let Some(i) = a.iter().position(|x| x == "--dict") { load_dict(&a[i + 1]); }
    let (seed, cases, one, secs) = (get("--seed", 1), get("--cases", 1000), get("--case", u64::MAX), get("--secs", 3600));
    std::panic::set_hook(Box::new(|_| {}));
    let t0 = std::time::Instant::now();
    let mut st = Stats::new();
    let mut k = if one == u64::MAX { 0 } else { one };
    while k < cases || k == one {
        if t0.elapsed().as_secs() > secs { break; }
        let mut r = Rng::new(seed, &prop, k);
        let mut log = String::new();
        if k % 64 == 0 { println!("AT {}", k); }
        let res = {
            let (r, st, log) = (std::panic::AssertUnwindSafe(&mut r), std::panic::AssertUnwindSafe(&mut st), std::panic::AssertUnwindSafe(&mut log));
            std::panic::catch_unwind(|| {
                let (r, st, log) = ({ r }.0, { st }.0, { log }.0);
                match prop.as_str() {
                    "C07" if k == 0 => names::all_short(st, log),
                    "C07" => names::c07(r, st, log),
                    "C11" => reject::c11(r, st, log),
                    _ => panic!("no such property"),
                }
            }).unwrap_or_else(|e| Err(format!("panicked: {}", e.downcast_ref::<String>().map(|s| s.as_str()).or(e.downcast_ref::<&str>().copied()).unwrap_or("?"))))
        };
        if a.iter().any(|x| x == "--emit") { println!("DEF\n{}\nEND", log); k += 1; continue; }
        if let Err(e) = res {
            println!("FAIL case={}\n{}\n---\n{}", k, log, e);
            std::process::exit(1);
        }
        if k == one { break; }
        k += 1;
    }
    println!("DONE cases={} distinct={}", st.cases, st.distinct.len());
    for s in &st.samples { println!("SAMPLE {}", s.replace('\n', " | ")); }
}
