//! Boolean diagrams (BDD, MDD): random histories against truth tables.
use crate::ctx::*;
use crate::rng::Rng;
use std::collections::{HashMap, HashSet};

pub enum V { T(u8), N { header: usize, level: usize, kids: Vec<usize> } }
pub trait BoolForest {
    const TAGS: (&'static str, &'static str, &'static str, &'static str); // ops, canonicity, gc, cache
    fn new() -> Self;
    fn header(&mut self, level: usize, label: &str, k: usize) -> usize;
    fn create(&mut self, h: usize, kids: &[usize]) -> usize;
    fn not(&mut self, f: usize) -> usize;
    fn bin(&mut self, op: usize, f: usize, g: usize) -> usize;
    fn ite(&mut self, f: usize, g: usize, h: usize) -> usize;
    fn gc(&mut self, roots: &[usize]) -> usize;
    fn clear(&mut self);
    fn live(&self) -> usize;
    fn view(&self, id: usize) -> V;
    fn consts(&self) -> [usize; 3];
    fn replace(&mut self, _f: usize, _g: usize) -> Option<usize> { None }
    fn binary() -> bool;
}
pub const OPS: [&str; 7] = ["and", "or", "xor", "imp", "nand", "nor", "xnor"];
fn op2(op: usize, a: u8, b: u8) -> u8 {
    let (a, b) = (a == 1, b == 1);
    (match op { 0 => a && b, 1 => a || b, 2 => a != b, 3 => !a || b, 4 => !(a && b), 5 => !(a || b), _ => a == b }) as u8
}
fn k3(op: usize, a: u8, b: u8) -> Option<u8> {
    match op { 0 if a == 0 || b == 0 => Some(0), 1 if a == 1 || b == 1 => Some(1), _ => if a < 2 && b < 2 { Some(op2(op, a, b)) } else { None } }
}

impl BoolForest for bddcore::prelude::BddManager {
    const TAGS: (&'static str, &'static str, &'static str, &'static str) = ("C01", "C02", "C03", "C04");
    fn new() -> Self { bddcore::prelude::BddManager::new() }
    fn header(&mut self, level: usize, label: &str, _k: usize) -> usize { self.create_header(level, label) }
    fn create(&mut self, h: usize, kids: &[usize]) -> usize { self.create_node(h, kids[0], kids[1]) }
    fn not(&mut self, f: usize) -> usize { self.not(f) }
    fn bin(&mut self, op: usize, f: usize, g: usize) -> usize {
        match op { 0 => self.and(f, g), 1 => self.or(f, g), 2 => self.xor(f, g), 3 => self.imp(f, g), 4 => self.nand(f, g), 5 => self.nor(f, g), _ => self.xnor(f, g) }
    }
    fn ite(&mut self, f: usize, g: usize, h: usize) -> usize { self.ite(f, g, h) }
    fn gc(&mut self, roots: &[usize]) -> usize { self.gc(roots) }
    fn clear(&mut self) { self.clear_cache() }
    fn live(&self) -> usize { self.live_node_count() }
    fn view(&self, id: usize) -> V {
        use bddcore::prelude::*;
        match self.get_node(&id).unwrap() {
            Node::Zero => V::T(0), Node::One => V::T(1), Node::Undet => V::T(2),
            Node::NonTerminal(n) => V::N { header: n.headerid(), level: self.level(&id).unwrap(), kids: vec![n.edge(0), n.edge(1)] },
        }
    }
    fn consts(&self) -> [usize; 3] { [self.zero(), self.one(), self.undet()] }
    fn binary() -> bool { true }
}
impl BoolForest for mddcore::prelude::MddManager {
    const TAGS: (&'static str, &'static str, &'static str, &'static str) = ("C07", "C10", "C11", "C04");
    fn new() -> Self { mddcore::prelude::MddManager::new() }
    fn header(&mut self, level: usize, label: &str, k: usize) -> usize { self.create_header(level, label, k) }
    fn create(&mut self, h: usize, kids: &[usize]) -> usize { self.create_node(h, kids) }
    fn not(&mut self, f: usize) -> usize { self.not(f) }
    fn bin(&mut self, op: usize, f: usize, g: usize) -> usize {
        match op { 0 => self.and(f, g), 1 => self.or(f, g), 2 => self.xor(f, g), 3 => self.imp(f, g), 4 => self.nand(f, g), 5 => self.nor(f, g), _ => self.xnor(f, g) }
    }
    fn ite(&mut self, f: usize, g: usize, h: usize) -> usize { self.ite(f, g, h) }
    fn gc(&mut self, roots: &[usize]) -> usize { self.gc(roots) }
    fn clear(&mut self) { self.clear_cache() }
    fn live(&self) -> usize { self.live_node_count() }
    fn view(&self, id: usize) -> V {
        use mddcore::prelude::*;
        use mddcore::mdd::Node;
        match self.get_node(&id).unwrap() {
            Node::Zero => V::T(0), Node::One => V::T(1), Node::Undet => V::T(2),
            Node::NonTerminal(n) => V::N { header: n.headerid(), level: self.level(&id).unwrap(), kids: n.iter().collect() },
        }
    }
    fn consts(&self) -> [usize; 3] { [self.zero(), self.one(), self.undet()] }
    fn replace(&mut self, f: usize, g: usize) -> Option<usize> { Some(mddcore::prelude::MddManager::replace(self, f, g)) }
    fn binary() -> bool { false }
}

pub struct Dom { pub ar: Vec<usize>, pub size: usize }
impl Dom {
    pub fn new(ar: Vec<usize>) -> Self { let size = ar.iter().product(); Dom { ar, size } }
    pub fn digit(&self, mut a: usize, level: usize) -> usize { for l in 0..level { a /= self.ar[l]; } a % self.ar[level] }
}
/// value of every assignment; Err when the diagram is not an ordered one
pub fn table<F: BoolForest>(m: &F, d: &Dom, id: usize) -> R<Vec<u8>> {
    fn go<F: BoolForest>(m: &F, d: &Dom, id: usize, below: usize, memo: &mut HashMap<usize, Vec<u8>>) -> R<(Vec<u8>, usize)> {
        // returns the table over levels < the returned height
        match m.view(id) {
            V::T(v) => Ok((vec![v], 0)),
            V::N { level, kids, .. } => {
                if level >= below { return Err(format!("node {id} at level {level} below a node at level {below}: not ordered")); }
                if kids.len() != d.ar[level] { return Err(format!("node {id} has {} edges, its variable {} states", kids.len(), d.ar[level])); }
                if let Some(t) = memo.get(&id) { return Ok((t.clone(), level + 1)); }
                let mut t = vec![];
                for k in kids {
                    let (kt, h) = go(m, d, k, level, memo)?;
                    let rep: usize = d.ar[h..level].iter().product();
                    for _ in 0..rep { t.extend_from_slice(&kt); }
                }
                memo.insert(id, t.clone());
                Ok((t, level + 1))
            }
        }
    }
    let (t, h) = go(m, d, id, d.ar.len(), &mut HashMap::new())?;
    let rep: usize = d.ar[h..].iter().product();
    Ok(t.repeat(rep))
}
pub fn reach<F: BoolForest>(m: &F, roots: &[usize]) -> HashSet<usize> {
    let mut s: HashSet<usize> = HashSet::new();
    let mut st: Vec<usize> = roots.to_vec();
    while let Some(x) = st.pop() { if s.insert(x) { if let V::N { kids, .. } = m.view(x) { st.extend(kids) } } }
    s
}
fn show(t: &[u8]) -> String { let s: String = t.iter().take(64).map(|v| b"01u"[*v as usize] as char).collect(); if t.len() > 64 { format!("{s}..") } else { s } }

pub fn history<F: BoolForest>(c: &mut Ctx, r: &mut Rng, big: bool) -> R<()> {
    let (t_op, t_can, t_gc, t_cache) = F::TAGS;
    let n = if big { if F::binary() { 11 + r.below(3) } else { 6 } } else { 2 + r.below(4) };
    let ar: Vec<usize> = (0..n).map(|_| if F::binary() { 2 } else if big { 3 + r.below(2) } else { [2, 3, 3, 4, 2][r.below(5)] }).collect();
    let d = Dom::new(ar.clone());
    let undet = !big && r.chance(30);
    let mut m = F::new();
    let order = r.perm(n);
    let mut hd = vec![0; n];
    for &l in &order { hd[l] = m.header(l, &format!("x{l}"), ar[l]); }
    c.say(format!("variables by level, states {ar:?}, declared in order {order:?}"));
    let mut pool: Vec<(usize, Vec<u8>)> = vec![];
    let z = m.consts();
    for i in 0..(if undet { 3 } else { 2 }) { pool.push((z[i], vec![i as u8; d.size])); }
    for l in 0..n {
        let kids: Vec<usize> = (0..ar[l]).map(|i| if F::binary() { z[i] } else { z[r.below(2)] }).collect();
        let id = m.create(hd[l], &kids);
        let t: Vec<u8> = (0..d.size).map(|a| { let k = kids[d.digit(a, l)]; if k == z[0] { 0 } else { 1 } }).collect();
        pool.push((id, t));
    }
    let mut gcs = 0;
    let steps = if big { 60 } else { 10 + r.below(60) };
    let mut canon: HashMap<Vec<u8>, usize> = HashMap::new();
    for (id, t) in &pool { canon.insert(t.clone(), *id); }
    let mut past: Vec<(usize, usize, Vec<usize>)> = vec![];
    for step in 0..steps {
        // an earlier question asked again, when its operands are (again) names of something
        let dv = if !past.is_empty() && r.chance(if gcs > 0 { 30 } else { 8 }) { let e = r.pick(&past).clone(); if e.2.iter().all(|x| pool.iter().any(|p| p.0 == *x)) { Some(e) } else { None } } else { None };
        let mut force: Vec<usize> = dv.as_ref().map_or(vec![], |e| e.2.iter().rev().cloned().collect());
        let mut pick = |r: &mut Rng, pool: &Vec<(usize, Vec<u8>)>| -> usize { if let Some(x) = force.pop() { pool.iter().position(|p| p.0 == x).unwrap() } else if r.chance(50) { pool.len() - 1 - r.below(pool.len().min(6)) } else { r.below(pool.len()) } };
        let k = r.below(if big { 90 } else { 100 });
        let k = dv.as_ref().map_or(k, |e| e.0);
        let (id, want, what): (usize, Vec<Option<u8>>, String);
        let mut alt: Option<Box<dyn FnMut(&mut F) -> usize>> = None;
        if big && step < 8 {
            // a random function, built bottom up
            let mut layer: Vec<usize> = (0..d.size).map(|_| z[r.below(2)]).collect();
            let t: Vec<u8> = layer.iter().map(|x| if *x == z[0] { 0 } else { 1 }).collect();
            for l in 0..n { layer = layer.chunks(ar[l]).map(|ch| m.create(hd[l], ch)).collect(); }
            id = layer[0]; want = t.into_iter().map(Some).collect(); what = "random function".into();
        } else if k < 10 {
            let i = pick(r, &pool); let (f, t) = pool[i].clone();
            id = m.not(f); what = format!("not({f})");
            want = t.iter().map(|v| Some(if *v < 2 { 1 - v } else { 2 })).collect();
            alt = Some(Box::new(move |m| m.not(f)));
        } else if k < 55 {
            let (i, j) = (pick(r, &pool), pick(r, &pool)); let ((f, tf), (g, tg)) = (pool[i].clone(), pool[j].clone());
            let op = if r.chance(70) { r.below(3) } else { r.below(7) };
            let op = dv.as_ref().map_or(op, |e| e.1);
            past.push((k, op, vec![f, g]));
            id = m.bin(op, f, g); what = format!("{}({f}, {g})", OPS[op]);
            want = tf.iter().zip(&tg).map(|(a, b)| if *a < 2 && *b < 2 { Some(op2(op, *a, *b)) } else { None }).collect();
            if op < 2 {
                let t = table(&m, &d, id)?;
                for a in 0..d.size { let v = t[a]; c.check(&[t_op], v == 2 || k3(op, tf[a], tg[a]).map_or(true, |w| w == v), || format!("{what}: at assignment {a} the operands are {} and {}, the result {}", tf[a], tg[a], v))?; }
            }
            alt = Some(Box::new(move |m| m.bin(op, f, g)));
        } else if k < 75 {
            let (i, j, l) = (pick(r, &pool), pick(r, &pool), pick(r, &pool));
            let ((f, tf), (g, tg), (h, th)) = (pool[i].clone(), pool[j].clone(), pool[l].clone());
            past.push((k, 0, vec![f, g, h]));
            id = m.ite(f, g, h); what = format!("ite({f}, {g}, {h})");
            want = (0..d.size).map(|a| match tf[a] { 1 => Some(tg[a]), 0 => Some(th[a]), _ => None }).collect();
            alt = Some(Box::new(move |m| m.ite(f, g, h)));
        } else if k < 82 {
            // a node over operands of lower levels
            let l = r.below(n);
            let low: Vec<(usize, Vec<u8>)> = pool.iter().filter(|(f, _)| match m.view(*f) { V::T(_) => true, V::N { level, .. } => level < l }).cloned().collect();
            let kids: Vec<(usize, Vec<u8>)> = (0..ar[l]).map(|_| r.pick(&low).clone()).collect();
            let ids: Vec<usize> = kids.iter().map(|k| k.0).collect();
            id = m.create(hd[l], &ids); what = format!("create_node(level {l}, {ids:?})");
            want = (0..d.size).map(|a| Some(kids[d.digit(a, l)].1[a])).collect();
        } else if k < 86 {
            if undet || r.chance(50) {
                let (i, j) = (pick(r, &pool), pick(r, &pool)); let ((f, tf), (g, tg)) = (pool[i].clone(), pool[j].clone());
                match m.replace(f, g) { Some(x) => id = x, None => continue }
                what = format!("replace({f}, {g})");
                want = tf.iter().zip(&tg).map(|(a, b)| Some(if *a == 2 { *b } else { *a })).collect();
                alt = Some(Box::new(move |m| m.replace(f, g).unwrap()));
            } else { continue }
        } else if k < 90 {
            m.clear(); c.say("clear_cache"); continue;
        } else {
            // collect: keep a random part of the pool
            let keep: Vec<(usize, Vec<u8>)> = pool.iter().enumerate().filter(|(i, _)| *i < 2 || r.chance(40)).map(|(_, p)| p.clone()).collect();
            let mut roots: Vec<usize> = keep.iter().map(|k| k.0).filter(|_| true).collect();
            if r.chance(20) { roots.push(roots[0]); }
            let mut want = reach(&m, &roots); for x in z { want.insert(x); }
            let before = m.live();
            let freed = m.gc(&roots); gcs += 1;
            c.say(format!("gc(roots {roots:?}) -> {freed}"));
            c.check(&[t_gc], m.live() == want.len(), || format!("after gc {} nodes are live, {} are reachable from the roots or terminal (before: {before})", m.live(), want.len()))?;
            pool = keep;
            canon.clear();
            for (id, t) in &pool {
                let now = table(&m, &d, *id)?;
                c.check(&[t_gc], now == *t, || format!("node {id} was kept by gc and its function changed from {} to {}", show(t), show(&now)))?;
                canon.insert(t.clone(), *id);
            }
            continue;
        }
        let got = match table(&m, &d, id) { Ok(t) => t, Err(e) => return Err(format!("{what} -> {id}: {e}")) };
        c.say(format!("{what} -> {id} = {}", show(&got)));
        let bad = (0..d.size).find(|a| want[*a].map_or(false, |w| w != got[*a]));
        let mut tags = vec![t_op];
        if gcs > 0 { tags.push(t_gc); }
        c.check(&tags, bad.is_none(), || { let a = bad.unwrap(); format!("{what} -> {id}: at assignment {a} (digits {:?}) the value is {}, it should be {}", (0..n).map(|l| d.digit(a, l)).collect::<Vec<_>>(), got[a], want[a].unwrap()) })?;
        if let Some(mut f) = alt {
            let again = f(&mut m);
            c.check(&[t_cache], again == id, || format!("{what} gave {id}, repeated at once it gives {again}"))?;
            if c.on(t_cache) && r.chance(30) {
                m.clear();
                let again = f(&mut m); let t2 = table(&m, &d, again)?;
                c.check(&[t_cache], t2 == got, || format!("{what} means {} with the caches as the history left them, {} with empty caches", show(&got), show(&t2)))?;
            }
        }
        if let Some(o) = canon.get(&got) {
            c.check(&[t_can], *o == id, || format!("nodes {o} and {id} denote the same function {}", show(&got)))?;
        }
        canon.entry(got.clone()).or_insert(id);
        if got.iter().any(|v| *v != got[0]) { c.case(&(d.ar.clone(), got.clone(), what.split('(').next().unwrap().to_string())); }
        pool.push((id, got));
    }
    // reduced and shared: over everything reachable
    if c.on(t_can) {
        let roots: Vec<usize> = pool.iter().map(|p| p.0).collect();
        let mut seen = HashMap::new();
        for id in reach(&m, &roots) {
            if let V::N { header, kids, .. } = m.view(id) {
                c.check(&[t_can], kids.iter().any(|k| *k != kids[0]), || format!("node {id} has only equal children"))?;
                let o = seen.insert((header, kids.clone()), id);
                c.check(&[t_can], o.is_none(), || format!("nodes {id} and {o:?} have the same variable and children"))?;
            }
        }
    }
    Ok(())
}
