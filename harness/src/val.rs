//! Value diagrams (MTMDD) and the two-sorted forest (MTMDD2): random histories against tables of values.
use crate::boolf::Dom;
use crate::ctx::*;
use crate::rng::Rng;
use mddcore::mtmdd2::Node as X;
use mddcore::prelude::*;
use std::collections::{HashMap, HashSet};

pub type T = Vec<Option<i64>>; // None: undetermined; Booleans are 0 and 1
pub enum W { T(Option<i64>), N { header: usize, level: usize, kids: Vec<X> } }
pub trait ValForest {
    const TWO: bool;
    fn new() -> Self;
    fn header(&mut self, level: usize, label: &str, k: usize) -> usize;
    fn create(&mut self, h: usize, kids: &[X]) -> X;
    fn value(&mut self, v: i64) -> X;
    fn bools(&self) -> Vec<X>;
    fn bin(&mut self, op: usize, f: X, g: X) -> X;
    fn cmp(&mut self, _op: usize, f: X, _g: X) -> X { f }
    fn ite(&mut self, f: X, _g: X, _h: X) -> X { f }
    fn vif(&mut self, f: X, _g: X) -> X { f }
    fn logic(&mut self, _op: usize, f: X, _g: X) -> X { f }
    fn gc(&mut self, roots: &[X]) -> usize;
    fn clear(&mut self);
    fn live(&self) -> usize;
    fn undets(&self) -> Vec<X>;
    fn view(&self, id: X) -> W;
}
pub const OPS: [&str; 8] = ["add", "sub", "mul", "div", "rem", "min", "max", "replace"];
pub fn op(op: usize, a: Option<i64>, b: Option<i64>) -> Option<i64> {
    if op == 7 { return a.or(b); }
    let (a, b) = (a?, b?);
    match op { 0 => Some(a + b), 1 => Some(a - b), 2 => Some(a * b), 3 => if b == 0 { None } else { Some(a / b) }, 4 => if b == 0 { None } else { Some(a % b) }, 5 => Some(a.min(b)), _ => Some(a.max(b)) }
}
pub const CMP: [&str; 6] = ["eq", "neq", "lt", "lte", "gt", "gte"];
pub fn cmp(op: usize, a: i64, b: i64) -> bool { match op { 0 => a == b, 1 => a != b, 2 => a < b, 3 => a <= b, 4 => a > b, _ => a >= b } }
fn vbin(m: &mut MtMddManager<i64>, op: usize, f: usize, g: usize) -> usize {
    match op { 0 => m.add(f, g), 1 => m.sub(f, g), 2 => m.mul(f, g), 3 => m.div(f, g), 4 => m.rem(f, g), 5 => m.min(f, g), 6 => m.max(f, g), _ => m.replace(f, g) }
}
fn vview(m: &MtMddManager<i64>, id: usize) -> W {
    match m.get_node(&id).unwrap() {
        mtmdd::Node::Undet => W::T(None),
        mtmdd::Node::Terminal(t) => W::T(Some(t.value())),
        mtmdd::Node::NonTerminal(n) => W::N { header: n.headerid(), level: m.level(&id).unwrap(), kids: n.iter().map(X::Value).collect() },
    }
}
fn bview(m: &MddManager, id: usize) -> W {
    match m.get_node(&id).unwrap() {
        mdd::Node::Undet => W::T(None), mdd::Node::Zero => W::T(Some(0)), mdd::Node::One => W::T(Some(1)),
        mdd::Node::NonTerminal(n) => W::N { header: n.headerid(), level: m.level(&id).unwrap(), kids: n.iter().map(X::Bool).collect() },
    }
}
pub fn id(x: X) -> usize { match x { X::Value(i) | X::Bool(i) => i } }
impl ValForest for MtMddManager<i64> {
    const TWO: bool = false;
    fn new() -> Self { MtMddManager::new() }
    fn header(&mut self, level: usize, label: &str, k: usize) -> usize { self.create_header(level, label, k) }
    fn create(&mut self, h: usize, kids: &[X]) -> X { let k: Vec<usize> = kids.iter().map(|x| id(*x)).collect(); X::Value(self.create_node(h, &k)) }
    fn value(&mut self, v: i64) -> X { X::Value(MtMddManager::value(self, v)) }
    fn bools(&self) -> Vec<X> { vec![] }
    fn bin(&mut self, op: usize, f: X, g: X) -> X { X::Value(vbin(self, op, id(f), id(g))) }
    fn gc(&mut self, roots: &[X]) -> usize { let k: Vec<usize> = roots.iter().map(|x| id(*x)).collect(); MtMddManager::gc(self, &k) }
    fn clear(&mut self) { self.clear_cache() }
    fn live(&self) -> usize { self.live_node_count() }
    fn undets(&self) -> Vec<X> { vec![X::Value(self.undet())] }
    fn view(&self, x: X) -> W { vview(self, id(x)) }
}
impl ValForest for MtMdd2Manager<i64> {
    const TWO: bool = true;
    fn new() -> Self { MtMdd2Manager::new() }
    fn header(&mut self, level: usize, label: &str, k: usize) -> usize { self.create_header(level, label, k) }
    fn create(&mut self, h: usize, kids: &[X]) -> X { self.create_node(h, kids) }
    fn value(&mut self, v: i64) -> X { MtMdd2Manager::value(self, v) }
    fn bools(&self) -> Vec<X> { vec![self.zero(), self.one()] }
    fn bin(&mut self, op: usize, f: X, g: X) -> X {
        match op { 0 => self.add(f, g), 1 => self.sub(f, g), 2 => self.mul(f, g), 3 => self.div(f, g), 5 => self.min(f, g), 6 => self.max(f, g), _ => X::Value(vbin(self.mtmdd_mut(), op, id(f), id(g))) }
    }
    fn cmp(&mut self, op: usize, f: X, g: X) -> X { match op { 0 => self.eq(f, g), 1 => self.neq(f, g), 2 => self.lt(f, g), 3 => self.lte(f, g), 4 => self.gt(f, g), _ => self.gte(f, g) } }
    fn ite(&mut self, f: X, g: X, h: X) -> X { MtMdd2Manager::ite(self, f, g, h) }
    fn vif(&mut self, f: X, g: X) -> X { X::Value(MtMdd2Manager::vif(self, id(f), id(g))) }
    fn logic(&mut self, op: usize, f: X, g: X) -> X { match op { 0 => self.and(f, g), 1 => self.or(f, g), 2 => self.xor(f, g), 3 => self.not(f), 4 => self.eq(f, g), _ => self.neq(f, g) } }
    fn gc(&mut self, roots: &[X]) -> usize { let (a, b) = MtMdd2Manager::gc(self, roots); a + b }
    fn clear(&mut self) { self.clear_cache() }
    fn live(&self) -> usize { self.live_node_count() }
    fn undets(&self) -> Vec<X> { vec![self.undet_value(), self.undet_boolean()] }
    fn view(&self, x: X) -> W { match x { X::Value(i) => vview(self.mtmdd(), i), X::Bool(i) => bview(self.mdd(), i) } }
}
pub fn table<F: ValForest>(m: &F, d: &Dom, x: X) -> R<T> {
    fn go<F: ValForest>(m: &F, d: &Dom, x: X, below: usize, memo: &mut HashMap<X, T>) -> R<(T, usize)> {
        match m.view(x) {
            W::T(v) => Ok((vec![v], 0)),
            W::N { level, kids, .. } => {
                if level >= below { return Err(format!("node {x:?} at level {level} below a node at level {below}: not ordered")); }
                if kids.len() != d.ar[level] { return Err(format!("node {x:?} has {} edges, its variable {} states", kids.len(), d.ar[level])); }
                if let Some(t) = memo.get(&x) { return Ok((t.clone(), level + 1)); }
                let mut t = vec![];
                for k in kids {
                    let (kt, h) = go(m, d, k, level, memo)?;
                    let rep: usize = d.ar[h..level].iter().product();
                    for _ in 0..rep { t.extend_from_slice(&kt); }
                }
                memo.insert(x, t.clone());
                Ok((t, level + 1))
            }
        }
    }
    let (t, h) = go(m, d, x, d.ar.len(), &mut HashMap::new())?;
    let rep: usize = d.ar[h..].iter().product();
    Ok(t.repeat(rep))
}
pub fn reach<F: ValForest>(m: &F, roots: &[X]) -> HashSet<X> {
    let mut s: HashSet<X> = HashSet::new();
    let mut st: Vec<X> = roots.to_vec();
    while let Some(x) = st.pop() { if s.insert(x) { if let W::N { kids, .. } = m.view(x) { st.extend(kids) } } }
    s
}
fn show(t: &T) -> String { let s: Vec<String> = t.iter().take(24).map(|v| v.map_or("u".into(), |x| x.to_string())).collect(); format!("[{}{}]", s.join(" "), if t.len() > 24 { " .." } else { "" }) }

pub fn history<F: ValForest>(c: &mut Ctx, r: &mut Rng, big: bool) -> R<()> {
    let n = if big { 4 } else { 1 + r.below(4) };
    let ar: Vec<usize> = (0..n).map(|_| if big { 3 + r.below(3) } else { [2, 3, 3, 4, 2][r.below(5)] }).collect();
    let d = Dom::new(ar.clone());
    let mut m = F::new();
    let order = r.perm(n);
    let mut hd = vec![0; n];
    for &l in &order { hd[l] = m.header(l, &format!("x{l}"), ar[l]); }
    c.say(format!("variables by level, states {ar:?}, declared in order {order:?}"));
    let mut pool: Vec<(X, T)> = vec![];
    let undet = r.chance(40);
    let vals: Vec<i64> = if r.chance(50) { vec![0, 1, 2, 3] } else { vec![-3, -2, -1, 0, 1, 2, 5, 7] };
    for v in &vals { let x = m.value(*v); pool.push((x, vec![Some(*v); d.size])); }
    for (i, x) in m.bools().into_iter().enumerate() { pool.push((x, vec![Some(i as i64); d.size])); }
    if undet { for x in m.undets() { pool.push((x, vec![None; d.size])); } }
    for l in 0..n {
        let vs: Vec<i64> = (0..ar[l]).map(|i| if r.chance(70) { i as i64 } else { *r.pick(&vals) }).collect();
        let kids: Vec<X> = vs.iter().map(|v| m.value(*v)).collect();
        let x = m.create(hd[l], &kids);
        pool.push((x, (0..d.size).map(|a| Some(vs[d.digit(a, l)])).collect()));
        if F::TWO {
            let b = m.bools(); let bs: Vec<usize> = (0..ar[l]).map(|_| r.below(2)).collect();
            let kids: Vec<X> = bs.iter().map(|i| b[*i]).collect();
            let x = m.create(hd[l], &kids);
            pool.push((x, (0..d.size).map(|a| Some(bs[d.digit(a, l)] as i64)).collect()));
        }
    }
    let isb = |x: &X| matches!(x, X::Bool(_));
    let mut gcs = 0;
    let mut canon: HashMap<(bool, T), X> = HashMap::new();
    for (x, t) in &pool { canon.insert((isb(x), t.clone()), *x); }
    let mut past: Vec<(usize, usize, Vec<X>)> = vec![];
    for _ in 0..(if big { 50 } else { 10 + r.below(60) }) {
        let dv = if !past.is_empty() && r.chance(if gcs > 0 { 30 } else { 8 }) { let e = r.pick(&past).clone(); if e.2.iter().all(|x| pool.iter().any(|p| p.0 == *x)) { Some(e) } else { None } } else { None };
        let mut force: Vec<X> = dv.as_ref().map_or(vec![], |e| e.2.iter().rev().cloned().collect());
        let mut pick = |r: &mut Rng, pool: &Vec<(X, T)>, b: bool| -> (X, T) {
            if let Some(x) = force.pop() { return pool.iter().find(|p| p.0 == x).unwrap().clone(); }
            let p: Vec<&(X, T)> = pool.iter().filter(|p| isb(&p.0) == b).collect();
            (if r.chance(50) { p[p.len() - 1 - r.below(p.len().min(6))] } else { p[r.below(p.len())] }).clone()
        };
        let k = r.below(100);
        let k = dv.as_ref().map_or(k, |e| e.0);
        let (x, want, what, tag): (X, Vec<Option<Option<i64>>>, String, &'static str);
        let mut alt: Option<Box<dyn FnMut(&mut F) -> X>> = None;
        let k = if !F::TWO && (40..75).contains(&k) { k % 40 } else { k };
        if k < 40 {
            let ((f, tf), (g, tg)) = (pick(r, &pool, false), pick(r, &pool, false));
            let o = dv.as_ref().map_or(r.below(8), |e| e.1);
            past.push((k, o, vec![f, g]));
            let t: T = tf.iter().zip(&tg).map(|(a, b)| op(o, *a, *b)).collect();
            if t.iter().flatten().any(|v| v.abs() > 1_000_000) { continue; }
            x = m.bin(o, f, g); what = format!("{}({f:?}, {g:?})", OPS[o]); want = t.into_iter().map(Some).collect(); tag = "C08";
            alt = Some(Box::new(move |m| m.bin(o, f, g)));
        } else if k < 55 {
            let ((f, tf), (g, tg)) = (pick(r, &pool, false), pick(r, &pool, false));
            let o = dv.as_ref().map_or(r.below(6), |e| e.1);
            past.push((k, o, vec![f, g]));
            x = m.cmp(o, f, g); what = format!("{}({f:?}, {g:?})", CMP[o]); tag = "C09";
            want = tf.iter().zip(&tg).map(|(a, b)| match (a, b) { (Some(a), Some(b)) => Some(Some(cmp(o, *a, *b) as i64)), _ => None }).collect();
            alt = Some(Box::new(move |m| m.cmp(o, f, g)));
        } else if k < 68 {
            let b = dv.as_ref().map_or(r.chance(30), |e| e.1 == 1);
            let ((f, tf), (g, tg), (h, th)) = (pick(r, &pool, true), pick(r, &pool, b), pick(r, &pool, b));
            past.push((k, b as usize, vec![f, g, h]));
            if !b && r.chance(15) {
                x = m.vif(f, g); what = format!("vif({f:?}, {g:?})");
                want = (0..d.size).map(|a| match (tf[a], tg[a]) { (Some(1), v) => Some(v), _ => Some(None) }).collect();
                alt = Some(Box::new(move |m| m.vif(f, g)));
            } else {
                x = m.ite(f, g, h); what = format!("ite({f:?}, {g:?}, {h:?})");
                want = (0..d.size).map(|a| match tf[a] { Some(1) => Some(tg[a]), Some(0) => Some(th[a]), _ => None }).collect();
                alt = Some(Box::new(move |m| m.ite(f, g, h)));
            }
            tag = "C09";
        } else if k < 75 {
            let ((f, tf), (g, tg)) = (pick(r, &pool, true), pick(r, &pool, true));
            let o = dv.as_ref().map_or(r.below(6), |e| e.1);
            past.push((k, o, vec![f, g]));
            x = m.logic(o, f, g); what = format!("{}({f:?}, {g:?})", ["and", "or", "xor", "not", "eq", "neq"][o]); tag = "C09";
            want = tf.iter().zip(&tg).map(|(a, b)| match (a, b) {
                (Some(a), _) if o == 3 => Some(Some(1 - a)),
                (Some(a), Some(b)) => Some(Some(match o { 0 => a & b, 1 => a | b, 2 | 5 => a ^ b, _ => 1 - (a ^ b) })), _ => None }).collect();
            alt = Some(Box::new(move |m| m.logic(o, f, g)));
        } else if k < 83 {
            let l = r.below(n); let b = F::TWO && r.chance(40);
            let low: Vec<(X, T)> = pool.iter().filter(|(f, _)| isb(f) == b && match m.view(*f) { W::T(_) => true, W::N { level, .. } => level < l }).cloned().collect();
            let kids: Vec<(X, T)> = (0..ar[l]).map(|_| r.pick(&low).clone()).collect();
            let ids: Vec<X> = kids.iter().map(|k| k.0).collect();
            x = m.create(hd[l], &ids); what = format!("create_node(level {l}, {ids:?})"); tag = if F::TWO { "C09" } else { "C08" };
            want = (0..d.size).map(|a| Some(kids[d.digit(a, l)].1[a])).collect();
        } else if k < 86 {
            let v = *r.pick(&[0i64, 1, -1, 4, 1000, 17, -6]);
            x = m.value(v); what = format!("value({v})"); want = vec![Some(Some(v)); d.size]; tag = "C08";
            alt = Some(Box::new(move |m| m.value(v)));
        } else if k < 90 { m.clear(); c.say("clear_cache"); continue;
        } else {
            let base = m.bools();
            // sometimes everything of one kind stays
            let side = r.below(4);
            let keep: Vec<(X, T)> = pool.iter().enumerate().filter(|(i, p)| *i < 2 || base.contains(&p.0) || side == 0 && isb(&p.0) || side == 1 && !isb(&p.0) || r.chance(40)).map(|(_, p)| p.clone()).collect();
            let mut roots: Vec<X> = keep.iter().map(|k| k.0).collect();
            if r.chance(20) { roots.push(roots[0]); }
            if r.chance(30) { roots.reverse(); }
            let mut want = reach(&m, &roots); for x in m.bools().into_iter().chain(m.undets()) { want.insert(x); }
            let before = m.live();
            let freed = m.gc(&roots); gcs += 1;
            c.say(format!("gc(roots {roots:?}) -> {freed}"));
            c.check(&["C11"], m.live() == want.len(), || format!("after gc {} nodes are live, {} are reachable from the roots or constant (before: {before})", m.live(), want.len()))?;
            pool = keep; canon.clear();
            for (x, t) in &pool {
                let now = table(&m, &d, *x)?;
                c.check(&["C11"], now == *t, || format!("node {x:?} was kept by gc and its function changed from {} to {}", show(t), show(&now)))?;
                canon.insert((isb(x), t.clone()), *x);
            }
            continue;
        }
        let got = match table(&m, &d, x) { Ok(t) => t, Err(e) => return Err(format!("{what} -> {x:?}: {e}")) };
        c.say(format!("{what} -> {x:?} = {}", show(&got)));
        let bad = (0..d.size).find(|a| want[*a].map_or(false, |w| w != got[*a]));
        let mut tags = vec![tag];
        if gcs > 0 { tags.push("C11"); }
        c.check(&tags, bad.is_none(), || { let a = bad.unwrap(); format!("{what} -> {x:?}: at assignment {:?} the value is {:?}, it should be {:?}", (0..n).map(|l| d.digit(a, l)).collect::<Vec<_>>(), got[a], want[a].unwrap()) })?;
        if let Some(mut f) = alt {
            let again = f(&mut m);
            c.check(&["C04"], again == x, || format!("{what} gave {x:?}, repeated at once it gives {again:?}"))?;
            if c.on("C04") && r.chance(30) {
                m.clear();
                let again = f(&mut m); let t2 = table(&m, &d, again)?;
                c.check(&["C04"], t2 == got, || format!("{what} means {} with the caches as the history left them, {} with empty caches", show(&got), show(&t2)))?;
            }
        }
        if let Some(o) = canon.get(&(isb(&x), got.clone())) {
            c.check(&["C10"], *o == x, || format!("nodes {o:?} and {x:?} denote the same function {}", show(&got)))?;
        }
        canon.entry((isb(&x), got.clone())).or_insert(x);
        if got.iter().any(|v| *v != got[0]) { c.case(&(d.ar.clone(), got.clone(), what.split('(').next().unwrap().to_string())); }
        pool.push((x, got));
    }
    if c.on("C10") {
        let roots: Vec<X> = pool.iter().map(|p| p.0).collect();
        let mut seen = HashMap::new();
        for x in reach(&m, &roots) {
            if let W::N { header, kids, .. } = m.view(x) {
                c.check(&["C10"], kids.iter().any(|k| *k != kids[0]), || format!("node {x:?} has only equal children"))?;
                let o = seen.insert((isb(&x), header, kids.clone()), x);
                c.check(&["C10"], o.is_none(), || format!("nodes {x:?} and {o:?} have the same variable and children"))?;
            }
        }
    }
    Ok(())
}
