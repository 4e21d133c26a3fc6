//! vx: extracts functions of the Rust crates under /repo and emits one Verus
//! source file per unit, joining each extracted body with the contract written
//! for it in the unit's sidecar file.
//!
//!   vx <repo> <spec-dir> <unit.vrs> <out.rs> <out.map> [--canary]
//!
//! The body text is taken from the repository on every run; what the
//! extraction changes or drops is listed in DESIGN.md ("Extraction").
mod index;
mod strs;
mod tx;
mod world;

use index::Repo;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

#[derive(Default, Clone, Debug)]
pub struct FnSpec {
    pub krate: String,
    pub path: String, // Type::name or module::name
    pub rename: Option<String>,
    pub ret: String,
    pub spec: String,
    pub attrs: Vec<String>,
    pub entry: String,
    pub exit: String,
    pub loops: BTreeMap<usize, String>,
    pub loop_begin: BTreeMap<usize, String>,
    pub loop_end: BTreeMap<usize, String>,
    pub loop_before: BTreeMap<usize, String>,
    pub loop_after: BTreeMap<usize, String>,
    pub mapinv: String,
    pub mapend: String,
    pub closures: BTreeMap<usize, String>,
    pub after_call: BTreeMap<String, String>,
    pub nocanary: bool,
    pub asspec: Option<String>,
    pub args: Vec<String>,
    pub stub: bool,
    pub sigsub: Vec<(String, String)>,
    pub ghost: Vec<String>,          // ghost parameters added to the signature
    pub pass: Vec<(String, String)>, // callee, ghost argument
}

pub struct Unit {
    pub typemap: HashMap<String, String>,
    pub contracted: Vec<(String, String)>, // (crate, path)
    pub world: world::World,
}

fn read(p: &str) -> String {
    std::fs::read_to_string(p).unwrap_or_else(|e| {
        eprintln!("vx: cannot read {p}: {e}");
        std::process::exit(3)
    })
}

/// Expand //@include and //@typemap; returns the flat list of lines.
fn flatten(dir: &str, file: &str, out: &mut Vec<String>, seen: &mut Vec<String>) {
    if seen.contains(&file.to_string()) {
        return;
    }
    seen.push(file.to_string());
    for l in read(&format!("{dir}/{file}")).lines() {
        if let Some(r) = l.trim().strip_prefix("//@include ") {
            flatten(dir, r.trim(), out, seen);
        } else {
            out.push(l.to_string());
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 6 {
        eprintln!("usage: vx <repo> <spec-dir> <unit.vrs> <out.rs> <out.map> [--canary]");
        std::process::exit(3);
    }
    let (repo, dir, unit_file, out_file, map_file) = (&args[1], &args[2], &args[3], &args[4], &args[5]);
    let canary = args.iter().any(|a| a == "--canary");
    // functions whose body is left out (contract assumed, and reported as such)
    let stubbed: Vec<String> = args.windows(2).filter(|w| w[0] == "--stub").map(|w| w[1].clone()).collect();
    let mut lines = Vec::new();
    flatten(dir, unit_file, &mut lines, &mut Vec::new());

    let mut repo = Repo::new(repo);
    let mut unit = Unit { typemap: HashMap::new(), contracted: Vec::new(), world: Default::default() };
    // First pass: typemap + list of contracted functions.
    for l in &lines {
        let t = l.trim();
        if let Some(r) = t.strip_prefix("//@typemap ") {
            let mut it = r.split_whitespace();
            let (a, b) = (it.next().unwrap(), it.next().unwrap());
            unit.typemap.insert(a.to_string(), b.to_string());
        }
        if let Some(r) = t.strip_prefix("//@world ") {
            let mut it = r.split_whitespace();
            let k = it.next().unwrap().to_string();
            for m in it { unit.world.modules.push((k.clone(), m.to_string())); }
        }
        if let Some(r) = t.strip_prefix("//@cell ") {
            let mut it = r.split_whitespace();
            let (a, b) = (it.next().unwrap(), it.next().unwrap());
            unit.world.cells.push((a.to_string(), b.to_string()));
        }
        if let Some(r) = t.strip_prefix("//@fn ").or(t.strip_prefix("//@known ")) {
            let mut it = r.split_whitespace();
            let (a, b) = (it.next().unwrap(), it.next().unwrap());
            unit.contracted.push((a.to_string(), b.to_string()));
        }
    }

    repo.world = unit.world.clone();
    let mut out = String::new();
    let mut map = String::new(); // function \t first line \t last line \t status \t detail
    let mut i = 0;
    let mut stubs = false;
    while i < lines.len() {
        let t = lines[i].trim().to_string();
        if t.starts_with("//@typemap") || t.starts_with("//@known") || t.starts_with("//@world") || t.starts_with("//@cell") {
            i += 1;
        } else if t == "//@stubs on" || t == "//@stubs off" {
            stubs = t == "//@stubs on";
            i += 1;
        } else if let Some(r) = t.strip_prefix("//@item ") {
            let mut it = r.split_whitespace();
            let (krate, path) = (it.next().unwrap(), it.next().unwrap());
            let attrs: Vec<&str> = it.collect();
            match repo.item(krate, path) {
                Some(item) => {
                    let first = out.lines().count() + 1;
                    match tx::emit_item(&item, &unit, &attrs) {
                        Ok(s) => {
                            out.push_str(&s);
                            out.push('\n');
                            let last = out.lines().count();
                            let _ = writeln!(map, "item {krate}::{path}\t{first}\t{last}\tok\t");
                        }
                        Err(e) => {
                            let _ = writeln!(map, "item {krate}::{path}\t0\t0\tunsupported\t{e}");
                        }
                    }
                }
                None => {
                    let _ = writeln!(map, "item {krate}::{path}\t0\t0\tlost\tno such item in the crate");
                }
            }
            i += 1;
        } else if let Some(r) = t.strip_prefix("//@fn ") {
            let mut it = r.split_whitespace();
            let mut fs = FnSpec {
                krate: it.next().unwrap().to_string(),
                path: it.next().unwrap().to_string(),
                ret: "r".into(),
                ..Default::default()
            };
            i += 1;
            enum Sec { Spec, Entry, Exit, Loop(usize), LoopBegin(usize), LoopEnd(usize), LoopBefore(usize), LoopAfter(usize), MapInv, MapEnd, Closure(usize), After(String) }
            let mut sec = Sec::Spec;
            while lines[i].trim() != "//@end" {
                let l = lines[i].clone();
                let t = l.trim();
                let num = |s: &str| s.trim().parse::<usize>().unwrap_or(0);
                if let Some(r) = t.strip_prefix("//@") {
                    if r == "entry" { sec = Sec::Entry }
                    else if r == "spec" { sec = Sec::Spec }
                    else if r == "exit" { sec = Sec::Exit }
                    else if r == "mapinv" { sec = Sec::MapInv }
                    else if r == "mapend" { sec = Sec::MapEnd }
                    else if r == "nocanary" { fs.nocanary = true }
                    else if let Some(n) = r.strip_prefix("asspec ") { fs.asspec = Some(n.trim().to_string()) }
                    else if let Some(n) = r.strip_prefix("args ") { fs.args = n.split_whitespace().map(|x| x.to_string()).collect() }
                    else if let Some(n) = r.strip_prefix("loopbegin ") { sec = Sec::LoopBegin(num(n)) }
                    else if let Some(n) = r.strip_prefix("loopend ") { sec = Sec::LoopEnd(num(n)) }
                    else if let Some(n) = r.strip_prefix("loopbefore ") { sec = Sec::LoopBefore(num(n)) }
                    else if let Some(n) = r.strip_prefix("loopafter ") { sec = Sec::LoopAfter(num(n)) }
                    else if let Some(n) = r.strip_prefix("loop ") { sec = Sec::Loop(num(n)) }
                    else if let Some(n) = r.strip_prefix("closure ") { sec = Sec::Closure(num(n)) }
                    else if let Some(n) = r.strip_prefix("after ") { sec = Sec::After(n.trim().to_string()) }
                    else if let Some(n) = r.strip_prefix("attr ") { fs.attrs.push(n.to_string()) }
                    else if let Some(n) = r.strip_prefix("ret ") { fs.ret = n.trim().to_string() }
                    else if let Some(n) = r.strip_prefix("rename ") { fs.rename = Some(n.trim().to_string()) }
                    else if let Some(n) = r.strip_prefix("sigsub ") { let (a, b) = n.split_once("=>").expect("sigsub a=>b"); fs.sigsub.push((a.trim().to_string(), b.trim().to_string())) }
                    else if let Some(n) = r.strip_prefix("ghost ") { fs.ghost.push(n.trim().to_string()) }
                    else if let Some(n) = r.strip_prefix("pass ") { let (a, b) = n.trim().split_once(' ').expect("pass callee expr"); fs.pass.push((a.to_string(), b.trim().to_string())) }
                    else { eprintln!("vx: unknown directive {t}"); std::process::exit(3) }
                } else {
                    let dst: &mut String = match &sec {
                        Sec::Spec => &mut fs.spec,
                        Sec::Entry => &mut fs.entry,
                        Sec::Exit => &mut fs.exit,
                        Sec::MapInv => &mut fs.mapinv,
                        Sec::MapEnd => &mut fs.mapend,
                        Sec::Loop(n) => fs.loops.entry(*n).or_default(),
                        Sec::LoopBegin(n) => fs.loop_begin.entry(*n).or_default(),
                        Sec::LoopEnd(n) => fs.loop_end.entry(*n).or_default(),
                        Sec::LoopBefore(n) => fs.loop_before.entry(*n).or_default(),
                        Sec::LoopAfter(n) => fs.loop_after.entry(*n).or_default(),
                        Sec::Closure(n) => fs.closures.entry(*n).or_default(),
                        Sec::After(n) => fs.after_call.entry(n.clone()).or_default(),
                    };
                    dst.push_str(&l);
                    dst.push('\n');
                }
                i += 1;
            }
            i += 1;
            fs.stub = stubs;
            let name = format!("{}::{}", fs.krate, fs.path);
            let first = out.lines().count() + 1;
            let (status, detail) = match repo.function(&fs.krate, &fs.path) {
                None => ("lost".to_string(), "no function of that name in the crate".to_string()),
                Some(f) => {
                    let skip = stubbed.contains(&name);
                    let mut res = if skip { Err("left out".to_string()) } else { tx::emit_fn(&mut repo, &f, &fs, &unit, canary) };
                    let err = res.as_ref().err().map(|e| e.replace(['\t', '\n'], " "));
                    if err.is_some() {
                        // keep the callers checkable: the contract without the body
                        let mut st = fs.clone();
                        st.stub = true;
                        res = tx::emit_fn(&mut repo, &f, &st, &unit, canary);
                    }
                    if let Ok(s) = &res {
                        out.push_str(s);
                        out.push('\n');
                    }
                    match err {
                        None => ("ok".to_string(), String::new()),
                        Some(e) => (if skip { "stubbed" } else { "unsupported" }.to_string(), e),
                    }
                }
            };
            let last = out.lines().count();
            let kind = if stubs { "stub" } else if fs.nocanary { "fnnc" } else { "fn" };
            let _ = writeln!(map, "{kind} {name}\t{first}\t{last}\t{status}\t{detail}");
        } else {
            // lemmas of a stubbed file are proved in the unit that owns it
            if stubs && (t.starts_with("pub proof fn") || t.starts_with("proof fn")) { out.push_str("#[verifier::external_body]\n"); }
            out.push_str(&lines[i]);
            out.push('\n');
            i += 1;
        }
    }
    std::fs::write(out_file, out).unwrap();
    std::fs::write(map_file, map).unwrap();
}
