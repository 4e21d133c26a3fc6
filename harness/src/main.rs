//! harness search <property> <seconds> <seed> <case-file>   look for a failing history
//! harness replay <property> <case>                           run one case again, verbosely
mod boolf;
mod bss;
mod cache;
mod ctx;
mod mss;
mod rng;
mod setf;
mod val;
mod zmf;
use ctx::*;
use rng::Rng;
use std::cell::RefCell;
use std::collections::HashSet;
use std::time::{Duration, Instant};

thread_local!(pub static LAST: RefCell<Vec<String>> = RefCell::new(vec![]));

type Case = fn(&mut Ctx, &mut Rng, bool) -> R<()>;
fn cases(p: &str) -> Vec<(&'static str, Case, u32)> {
    use bddcore::prelude::BddManager;
    use mddcore::prelude::MddManager;
    let bdd: (&str, Case, u32) = ("bdd", boolf::history::<BddManager>, 12);
    let mdd: (&str, Case, u32) = ("mdd", boolf::history::<MddManager>, 12);
    let zdd: (&str, Case, u32) = ("zdd", setf::history, 20);
    let mtmdd: (&str, Case, u32) = ("mtmdd", val::history::<mddcore::prelude::MtMddManager<i64>>, 15);
    let two: (&str, Case, u32) = ("mtmdd2", val::history::<mddcore::prelude::MtMdd2Manager<i64>>, 15);
    let zmdd: (&str, Case, u32) = ("zmdd", zmf::history, 10);
    let bsys: (&str, Case, u32) = ("bss", crate::bss::history, 12);
    let bsets: (&str, Case, u32) = ("zdd-handles", crate::bss::sets, 12);
    let msys: (&str, Case, u32) = ("mss", crate::mss::history, 12);
    let cache: (&str, Case, u32) = ("cache", cache::history, 3);
    match p {
        "C01" | "C02" | "C03" => vec![bdd],
        "C04" => vec![cache, bdd, zdd, mdd, two, zmdd],
        "C05" => vec![zdd, bsets],
        "C06" => vec![zdd],
        "C07" => vec![mdd],
        "C08" => vec![mtmdd],
        "C09" => vec![two],
        "C10" | "C11" => vec![mdd, mtmdd, two, zmdd],
        "C12" => vec![zmdd],
        "C13" | "C15" | "C16" => vec![bsys],
        "C14" => vec![bsys, ("bss-wide", crate::bss::wide, 12)],
        "C17" => vec![bsys, msys],
        "C18" => vec![bsys, bsets, msys],
        "C19" | "C21" => vec![msys],
        "C20" => vec![msys, ("mss-wide", crate::mss::wide, 12)],
        "C22" => vec![bsys, bsets, msys],
        _ => vec![],
    }
}
/// one case; the answer is Err(message) when it fails
fn one(p: &str, which: usize, seed: u64, stats: Option<&mut Stats>) -> R<()> {
    let cs = cases(p);
    let (_, f, every) = cs[which % cs.len()];
    let mut r = Rng::new(seed);
    let big = r.below(every as usize) == 0;
    let mut c = Ctx::new(p);
    LAST.with(|l| l.borrow_mut().clear());
    let out = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut c, &mut r, big)));
    if let Some(s) = stats {
        s.evals += 1; s.checks += c.checks;
        if s.seen.len() < 2_000_000 { s.seen.extend(c.seen.iter()); }
        if s.samples.len() < 3 && c.log.len() > 4 && c.log.len() < 40 { s.samples.push(c.log.join("; ").chars().take(600).collect()); }
    }
    match out {
        Ok(x) => x,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(format!("panic: {m} {}", PANIC.with(|p| p.borrow().clone())))
        }
    }
}
thread_local!(static PANIC: RefCell<String> = RefCell::new(String::new()));
#[derive(Default)]
struct Stats { evals: u64, checks: u64, seen: HashSet<u64>, samples: Vec<String> }
fn esc(s: &str) -> String { s.chars().flat_map(|c| match c { '"' => vec!['\\', '"'], '\\' => vec!['\\', '\\'], '\n' => vec!['\\', 'n'], c if (c as u32) < 32 => vec![' '], c => vec![c] }).collect() }

fn main() {
    std::panic::set_hook(Box::new(|i| { let l = i.location().map(|l| format!("at {}:{}", l.file(), l.line())).unwrap_or_default(); PANIC.with(|p| *p.borrow_mut() = l); }));
    let a: Vec<String> = std::env::args().collect();
    // deep diagrams recurse: give the worker a large stack
    let h = std::thread::Builder::new().stack_size(1 << 29).spawn(move || run(&a)).unwrap();
    std::process::exit(h.join().unwrap_or(2));
}
fn run(a: &[String]) -> i32 {
    if a.len() >= 4 && a[1] == "replay" {
        let (w, s) = a[3].split_once(':').expect("case is <which>:<seed>");
        let r = one(&a[2], w.parse().unwrap(), s.parse().unwrap(), None);
        LAST.with(|l| for x in l.borrow().iter() { println!("  {x}") });
        return match r { Ok(()) => { println!("case {} holds", a[3]); 0 } Err(e) => { println!("FAILS: {e}"); 1 } };
    }
    if a.len() < 6 || a[1] != "search" { eprintln!("usage"); return 2; }
    let (p, secs, seed, file) = (&a[2], a[3].parse::<f64>().unwrap(), a[4].parse::<u64>().unwrap(), &a[5]);
    let n = cases(p).len();
    if n == 0 { eprintln!("no cases for {p}"); return 2; }
    let t0 = Instant::now();
    let mut st = Stats::default();
    let mut i = 0u64;
    while t0.elapsed() < Duration::from_secs_f64(secs) {
        let s = seed.wrapping_mul(1_000_003).wrapping_add(i);
        let which = (i as usize) % n;
        { let _ = std::fs::write(file, format!("{which}:{s}\n")); }
        if let Err(e) = one(p, which, s, Some(&mut st)) {
            let hist: Vec<String> = LAST.with(|l| l.borrow().clone());
            let _ = std::fs::write(file, format!("{which}:{s}\n"));
            println!("FAIL case={which}:{s}");
            println!("MESSAGE {}", e.replace('\n', " "));
            for h in hist.iter() { println!("STEP {h}"); }
            return 1;
        }
        i += 1;
    }
    let samples: Vec<String> = st.samples.iter().map(|s| format!("\"{}\"", esc(s))).collect();
    println!("STATS {{\"evaluations\":{},\"checks\":{},\"distinct_nontrivial\":{},\"samples\":[{}]}}", st.evals, st.checks, st.seen.len(), samples.join(","));
    0
}
