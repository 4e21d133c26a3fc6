//! Zero-suppressed multi-valued diagrams: random histories against explicit maps from state vectors to labels.
use crate::ctx::*;
use crate::rng::Rng;
use mddcore::mtmdd::Node;
use mddcore::prelude::*;
use std::collections::{BTreeMap, HashMap, HashSet};

pub type M = ZmddManager<i64>;
pub type P = BTreeMap<Vec<u8>, i64>; // full state vector (by level) -> label
pub fn map(m: &M, n: usize, id: usize) -> R<P> {
    fn go(m: &M, n: usize, id: usize, below: usize, memo: &mut HashMap<usize, P>) -> R<P> {
        match m.get_node(&id).unwrap() {
            Node::Undet => Ok(P::new()),
            Node::Terminal(t) => Ok([(vec![0u8; n], t.value())].into_iter().collect()),
            Node::NonTerminal(f) => {
                let l = m.level(&id).unwrap();
                if l >= below { return Err(format!("node {id} at level {l} under a node at level {below}: not ordered")); }
                if let Some(f) = memo.get(&id) { return Ok(f.clone()); }
                let mut p = P::new();
                for (i, k) in f.iter().enumerate() { for (mut v, x) in go(m, n, k, l, memo)? { v[l] = i as u8; p.insert(v, x); } }
                memo.insert(id, p.clone());
                Ok(p)
            }
        }
    }
    go(m, n, id, usize::MAX, &mut HashMap::new())
}
fn reach(m: &M, roots: &[usize]) -> HashSet<usize> {
    let mut s = HashSet::new();
    let mut st = roots.to_vec();
    while let Some(x) = st.pop() { if s.insert(x) { if let Node::NonTerminal(n) = m.get_node(&x).unwrap() { st.extend(n.iter()); } } }
    s
}
fn show(p: &P) -> String { let v: Vec<String> = p.iter().take(16).map(|(k, v)| format!("{}:{v}", k.iter().map(|x| x.to_string()).collect::<String>())).collect(); format!("{{{}{}}}", v.join(","), if p.len() > 16 { ".." } else { "" }) }
fn oracle(op: usize, f: &P, g: &P) -> P { f.iter().filter(|(k, v)| (g.get(*k) == Some(v)) == (op == 0)).map(|(k, v)| (k.clone(), *v)).collect() }

pub fn history(c: &mut Ctx, r: &mut Rng, big: bool) -> R<()> {
    let n = if big { 4 } else { 1 + r.below(3) };
    let ar: Vec<usize> = (0..n).map(|_| 2 + r.below(3)).collect();
    let mut m = M::new();
    let order = r.perm(n);
    let mut hd = vec![0; n];
    for &l in &order { hd[l] = m.create_header(l, &format!("x{l}"), ar[l]); }
    c.say(format!("variables by level, states {ar:?}, declared in order {order:?}"));
    let mut pool: Vec<(usize, P)> = vec![(m.undet(), P::new())];
    let labels = 1 + r.below(3) as i64;
    for v in 0..labels { let x = m.value(v); pool.push((x, [(vec![0u8; n], v)].into_iter().collect())); }
    let mut canon: HashMap<P, usize> = pool.iter().map(|(i, f)| (f.clone(), *i)).collect();
    let mut gcs = 0;
    let mut past: Vec<(usize, usize, usize)> = vec![];
    for _ in 0..(10 + r.below(60)) {
        let dv = if !past.is_empty() && r.chance(if gcs > 0 { 30 } else { 8 }) { let e = *r.pick(&past); if [e.1, e.2].iter().all(|x| pool.iter().any(|p| p.0 == *x)) { Some(e) } else { None } } else { None };
        let mut force: Vec<usize> = dv.map_or(vec![], |e| vec![e.2, e.1]);
        let mut pick = |r: &mut Rng, pool: &Vec<(usize, P)>| -> (usize, P) { pool[if let Some(x) = force.pop() { pool.iter().position(|p| p.0 == x).unwrap() } else if r.chance(50) { pool.len() - 1 - r.below(pool.len().min(8)) } else { r.below(pool.len()) }].clone() };
        let k = if dv.is_some() { 25 } else { r.below(100) };
        let (id, want, what);
        if k < 25 {
            let p = 10 + r.below(80) as u32;
            fn build(m: &mut M, r: &mut Rng, hd: &[usize], ar: &[usize], l: usize, p: u32, labels: i64, v: &mut Vec<u8>, out: &mut P) -> usize {
                if l == 0 { return if r.chance(p) { let x = r.below(labels as usize) as i64; out.insert(v.clone(), x); m.value(x) } else { m.undet() }; }
                let kids: Vec<usize> = (0..ar[l - 1]).map(|i| { v[l - 1] = i as u8; build(m, r, hd, ar, l - 1, p, labels, v, out) }).collect();
                v[l - 1] = 0;
                m.create_node(hd[l - 1], &kids)
            }
            let mut out = P::new();
            id = build(&mut m, r, &hd, &ar, n, p, labels, &mut vec![0; n], &mut out); want = out; what = "random map".to_string();
        } else if k < 70 {
            let ((f, ff), (g, gf)) = (pick(r, &pool), pick(r, &pool));
            let op = dv.map_or(r.below(2), |e| e.0);
            past.push((op, f, g));
            let go = |m: &mut M| if op == 0 { m.intersect(f, g) } else { m.setdiff(f, g) };
            id = go(&mut m); want = oracle(op, &ff, &gf); what = format!("{}({f}, {g})", ["intersect", "setdiff"][op]);
            c.check(&["C04"], go(&mut m) == id, || format!("{what} gives another node when repeated at once"))?;
            if c.on("C04") && r.chance(20) {
                let a = map(&m, n, id)?; m.clear_cache(); let again = go(&mut m); let b = map(&m, n, again)?;
                c.check(&["C04"], a == b, || format!("{what} means {} with the cache as the history left it, {} with an empty one", show(&a), show(&b)))?;
            }
        } else if k < 76 {
            let (f, ff) = pick(r, &pool); let v = r.below(labels as usize) as i64;
            id = m.set_baseline(f, v); what = format!("set_baseline({f}, {v})");
            let mut w = ff; w.entry(vec![0; n]).or_insert(v); want = w;
        } else if k < 86 {
            let l = r.below(n);
            let low: Vec<(usize, P)> = pool.iter().filter(|(f, _)| m.level(f).map_or(true, |x| x < l)).cloned().collect();
            let kids: Vec<(usize, P)> = (0..ar[l]).map(|_| r.pick(&low).clone()).collect();
            let ids: Vec<usize> = kids.iter().map(|k| k.0).collect();
            id = m.create_node(hd[l], &ids); what = format!("create_node(level {l}, {ids:?})");
            want = kids.iter().enumerate().flat_map(|(i, (_, p))| p.iter().map(move |(k, v)| { let mut k = k.clone(); k[l] = i as u8; (k, *v) })).collect();
        } else if k < 90 { m.clear_cache(); c.say("clear_cache"); continue;
        } else {
            let keep: Vec<(usize, P)> = pool.iter().enumerate().filter(|(i, _)| *i < 1 || r.chance(40)).map(|(_, p)| p.clone()).collect();
            let roots: Vec<usize> = keep.iter().map(|k| k.0).collect();
            let mut want = reach(&m, &roots); want.insert(m.undet());
            let freed = m.gc(&roots); gcs += 1;
            c.say(format!("gc(roots {roots:?}) -> {freed}"));
            c.check(&["C11"], m.live_node_count() == want.len(), || format!("after gc {} nodes are live, {} are reachable from the roots or constant", m.live_node_count(), want.len()))?;
            pool = keep; canon.clear();
            for (id, f) in &pool {
                let now = map(&m, n, *id)?;
                c.check(&["C11"], now == *f, || format!("node {id} was kept by gc and its map changed from {} to {}", show(f), show(&now)))?;
                canon.insert(f.clone(), *id);
            }
            continue;
        }
        let got = match map(&m, n, id) { Ok(f) => f, Err(e) => return Err(format!("{what} -> {id}: {e}, expected {}", show(&want))) };
        c.say(format!("{what} -> {id} = {}", show(&got)));
        let tags: &[&str] = if gcs > 0 { &["C12", "C11"] } else { &["C12"] };
        c.check(tags, got == want, || format!("{what} -> {id} is the map {}, it should be {}", show(&got), show(&want)))?;
        if let Some(x) = canon.get(&got) { c.check(&["C10"], *x == id, || format!("nodes {x} and {id} denote the same map {}", show(&got)))?; }
        canon.entry(got.clone()).or_insert(id);
        if got.len() > 1 { c.case(&(got.clone(), what.split('(').next().unwrap().to_string())); }
        pool.push((id, got));
    }
    Ok(())
}
