//! ZDD set families: random histories against explicit families.
use crate::ctx::*;
use crate::rng::Rng;
use bddcore::prelude::*;
use std::collections::{BTreeSet, HashMap, HashSet};

pub type Fam = BTreeSet<u32>; // a set of sets, each a bit mask over levels
pub fn family(m: &ZddManager, id: usize) -> R<Fam> {
    fn go(m: &ZddManager, id: usize, below: usize, memo: &mut HashMap<usize, Fam>) -> R<Fam> {
        match m.get_node(&id).unwrap() {
            Node::Zero => Ok(Fam::new()),
            Node::One => Ok([0u32].into_iter().collect()),
            Node::Undet => Err("undetermined family".into()),
            Node::NonTerminal(n) => {
                let l = m.level(&id).unwrap();
                if l >= below { return Err(format!("node {id} at level {l} under a node at level {below}: not ordered")); }
                if let Some(f) = memo.get(&id) { return Ok(f.clone()); }
                let mut f = go(m, n.edge(0), l, memo)?;
                for s in go(m, n.edge(1), l, memo)? { f.insert(s | 1 << l); }
                memo.insert(id, f.clone());
                Ok(f)
            }
        }
    }
    go(m, id, usize::MAX, &mut HashMap::new())
}
pub fn reach(m: &ZddManager, roots: &[usize]) -> HashSet<usize> {
    let mut s = HashSet::new();
    let mut st = roots.to_vec();
    while let Some(x) = st.pop() { if s.insert(x) { if let Node::NonTerminal(n) = m.get_node(&x).unwrap() { st.push(n.edge(0)); st.push(n.edge(1)); } } }
    s
}
pub const OPS: [&str; 5] = ["intersect", "union", "setdiff", "product", "divide"];
pub fn oracle(op: usize, f: &Fam, g: &Fam) -> Fam {
    match op {
        0 => f.intersection(g).cloned().collect(),
        1 => f.union(g).cloned().collect(),
        2 => f.difference(g).cloned().collect(),
        3 => { let mut r = Fam::new(); for a in f { for b in g { r.insert(a | b); } } r }
        _ => { // the quotient: s with s disjoint from every t in g and s+t in f
            let t0 = *g.iter().next().unwrap();
            f.iter().filter(|x| *x & t0 == t0).map(|x| x & !t0).filter(|s| g.iter().all(|t| s & t == 0 && f.contains(&(s | t)))).collect()
        }
    }
}
pub fn apply(m: &mut ZddManager, op: usize, f: usize, g: usize) -> usize {
    match op { 0 => m.intersect(f, g), 1 => m.union(f, g), 2 => m.setdiff(f, g), 3 => m.product(f, g), _ => m.divide(f, g) }
}
fn show(f: &Fam) -> String { let v: Vec<String> = f.iter().take(20).map(|s| format!("{s:b}")).collect(); format!("{{{}{}}}", v.join(","), if f.len() > 20 { ".." } else { "" }) }

pub fn history(c: &mut Ctx, r: &mut Rng, big: bool) -> R<()> {
    let n = if big { 9 } else { 1 + r.below(6) };
    let mut m = ZddManager::new();
    let order = r.perm(n);
    let mut hd = vec![0; n];
    for &l in &order { hd[l] = m.create_header(l, &format!("x{l}")); }
    c.say(format!("{n} elements, declared in level order {order:?}"));
    let (z, o) = (m.zero(), m.one());
    let mut pool: Vec<(usize, Fam)> = vec![(z, Fam::new()), (o, [0].into_iter().collect())];
    for l in 0..n { let id = m.create_node(hd[l], z, o); pool.push((id, [1u32 << l].into_iter().collect())); }
    let mut canon: HashMap<Fam, usize> = pool.iter().map(|(i, f)| (f.clone(), *i)).collect();
    let mut gcs = 0;
    let mut past: Vec<(usize, usize, usize)> = vec![];
    for _ in 0..(if big { 40 } else { 10 + r.below(70) }) {
        let dv = if !past.is_empty() && r.chance(if gcs > 0 { 30 } else { 8 }) { let e = *r.pick(&past); if [e.1, e.2].iter().all(|x| pool.iter().any(|p| p.0 == *x)) { Some(e) } else { None } } else { None };
        let mut force: Vec<usize> = dv.map_or(vec![], |e| vec![e.2, e.1]);
        let mut pick = |r: &mut Rng, pool: &Vec<(usize, Fam)>| -> usize { if let Some(x) = force.pop() { pool.iter().position(|p| p.0 == x).unwrap() } else if r.chance(50) { pool.len() - 1 - r.below(pool.len().min(8)) } else { r.below(pool.len()) } };
        let k = if dv.is_some() { 10 } else { r.below(100) };
        let (id, want, what);
        if k < 10 {
            // an explicit family
            let p = 5 + r.below(60) as u32;
            let f: Fam = (0..1u32 << n).filter(|_| r.chance(p)).collect();
            fn build(m: &mut ZddManager, hd: &[usize], f: &Fam, l: usize) -> usize {
                if f.is_empty() { return m.zero(); }
                if l == 0 { return m.one(); }
                let f0: Fam = f.iter().filter(|s| *s >> (l - 1) & 1 == 0).cloned().collect();
                let f1: Fam = f.iter().filter(|s| *s >> (l - 1) & 1 == 1).map(|s| s & !(1 << (l - 1))).collect();
                let a = build(m, hd, &f0, l - 1); let b = build(m, hd, &f1, l - 1);
                m.create_node(hd[l - 1], a, b)
            }
            id = build(&mut m, &hd, &f, n); want = f; what = "family".to_string();
        } else if k < 75 {
            let (i, j) = (pick(r, &pool), pick(r, &pool)); let ((f, ff), (g, gf)) = (pool[i].clone(), pool[j].clone());
            let op = dv.map_or(if r.chance(25) { 4 } else { r.below(5) }, |e| e.0);
            past.push((op, f, g));
            if op == 4 && gf.is_empty() { continue; }
            if op == 3 && ff.len() * gf.len() > 60000 { continue; }
            id = apply(&mut m, op, f, g); want = oracle(op, &ff, &gf); what = format!("{}({f}, {g})", OPS[op]);
            c.check(&["C04"], apply(&mut m, op, f, g) == id, || format!("{what} gives another node when repeated at once"))?;
            if c.on("C04") && r.chance(20) {
                let a = family(&m, id)?; m.clear_cache(); let again = apply(&mut m, op, f, g); let b = family(&m, again)?;
                c.check(&["C04"], a == b, || format!("{what} means {} with the cache as the history left it, {} with an empty one", show(&a), show(&b)))?;
            }
        } else if k < 85 {
            let l = r.below(n);
            let low: Vec<(usize, Fam)> = pool.iter().filter(|(f, _)| m.level(f).map_or(true, |x| x < l)).cloned().collect();
            let (a, b) = (r.pick(&low).clone(), r.pick(&low).clone());
            id = m.create_node(hd[l], a.0, b.0); what = format!("create_node(level {l}, {}, {})", a.0, b.0);
            want = a.1.iter().cloned().chain(b.1.iter().map(|s| s | 1 << l)).collect();
        } else if k < 89 { m.clear_cache(); c.say("clear_cache"); continue;
        } else {
            let keep: Vec<(usize, Fam)> = pool.iter().enumerate().filter(|(i, _)| *i < 2 || r.chance(40)).map(|(_, p)| p.clone()).collect();
            let roots: Vec<usize> = keep.iter().map(|k| k.0).collect();
            let mut want = reach(&m, &roots); for x in [z, o, m.undet()] { want.insert(x); }
            let freed = m.gc(&roots); gcs += 1;
            c.say(format!("gc(roots {roots:?}) -> {freed}"));
            c.check(&["C06"], m.live_node_count() == want.len(), || format!("after gc {} nodes are live, {} are reachable from the roots or terminal", m.live_node_count(), want.len()))?;
            pool = keep; canon.clear();
            for (id, f) in &pool {
                let now = family(&m, *id)?;
                c.check(&["C06"], now == *f, || format!("node {id} was kept by gc and its family changed from {} to {}", show(f), show(&now)))?;
                canon.insert(f.clone(), *id);
            }
            continue;
        }
        let got = match family(&m, id) { Ok(f) => f, Err(e) => { c.check(&["C05"], false, || format!("{what} -> {id}: {e}, expected {}", show(&want)))?; return Ok(()); } };
        c.say(format!("{what} -> {id} = {}", show(&got)));
        let tags: &[&str] = if gcs > 0 { &["C05", "C06"] } else { &["C05"] };
        c.check(tags, got == want, || format!("{what} -> {id} is the family {}, it should be {}", show(&got), show(&want)))?;
        if let Some(x) = canon.get(&got) { c.check(&["C06"], *x == id, || format!("nodes {x} and {id} denote the same family {}", show(&got)))?; }
        canon.entry(got.clone()).or_insert(id);
        if got.len() > 1 { c.case(&(got.clone(), what.split('(').next().unwrap().to_string())); }
        pool.push((id, got));
    }
    Ok(())
}
