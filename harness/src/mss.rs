//! Multi-state systems: random histories of handles over a small forest against explicit tables.
use crate::bss::{P, Q};
use crate::ctx::*;
use crate::rng::Rng;
use ::mss::prelude::*;
use std::collections::{BTreeSet, HashMap, HashSet};

type V = i64;
/// values by state vector (mixed radix, variable 0 fastest); None = undetermined
pub type T = Vec<Option<V>>;
#[derive(Clone)]
struct H { h: MddNode<V>, t: T, b: bool }
struct W { mgr: MssMgr<V>, names: Vec<String>, ar: Vec<usize>, order: Vec<usize>, vars: HashMap<String, usize> }
impl W {
    fn total(&self) -> usize { self.ar.iter().product() }
    fn n(&self) -> usize { self.ar.len() }
    fn digit(&self, i: usize, v: usize) -> usize { i / self.ar[..v].iter().product::<usize>() % self.ar[v] }
    fn put(&self, i: usize, v: usize, j: usize) -> usize { let p = self.ar[..v].iter().product::<usize>(); i - self.digit(i, v) * p + j * p }
    fn vec(&self, i: usize) -> Vec<usize> { (0..self.n()).map(|v| self.digit(i, v)).collect() }
    fn index(&self, x: &[usize]) -> usize { (0..self.n()).rev().fold(0, |s, v| s * self.ar[v] + x[v]) }
    fn var(&self, name: &str) -> R<usize> { self.names.iter().position(|x| x == name).ok_or(format!("unknown label {name}")) }
    fn table(&self, f: &MddNode<V>) -> R<T> {
        let rc = f.get_mgr(); let m = rc.borrow();
        fn go(w: &W, m: &MtMdd2Manager<V>, x: ::mddcore::mtmdd2::Node, below: usize, memo: &mut HashMap<(bool, usize), T>) -> R<T> {
            use ::mddcore::{mdd, mtmdd, mtmdd2};
            let all = |v: Option<V>| Ok(vec![v; w.total()]);
            let (b, id, l, name, kids) = match x {
                mtmdd2::Node::Value(id) => match m.mtmdd().get_node(&id).ok_or("no such node")? { mtmdd::Node::Undet => return all(None), mtmdd::Node::Terminal(t) => return all(Some(t.value())), mtmdd::Node::NonTerminal(f) => (false, id, m.mtmdd().level(&id).unwrap(), m.mtmdd().label(&id).unwrap(), f.iter().map(mtmdd2::Node::Value).collect::<Vec<_>>()) },
                mtmdd2::Node::Bool(id) => match m.mdd().get_node(&id).ok_or("no such node")? { mdd::Node::Undet => return all(None), mdd::Node::Zero => return all(Some(0)), mdd::Node::One => return all(Some(1)), mdd::Node::NonTerminal(f) => (true, id, m.mdd().level(&id).unwrap(), m.mdd().label(&id).unwrap(), f.iter().map(mtmdd2::Node::Bool).collect::<Vec<_>>()) },
            };
            if l >= below { return Err(format!("node {id} at level {l} under one at level {below}: not ordered")); }
            if let Some(t) = memo.get(&(b, id)) { return Ok(t.clone()); }
            let v = w.var(name)?;
            if kids.len() != w.ar[v] { return Err(format!("node {id} of {name} has {} children for {} states", kids.len(), w.ar[v])); }
            let ts: Vec<T> = kids.into_iter().map(|k| go(w, m, k, l, memo)).collect::<R<_>>()?;
            let t: T = (0..w.total()).map(|i| ts[w.digit(i, v)][i]).collect();
            memo.insert((b, id), t.clone()); Ok(t)
        }
        go(self, &m, f.get_node(), usize::MAX, &mut HashMap::new())
    }
    fn declared(&mut self, v: usize) { if !self.order.contains(&v) { self.order.push(v) } }
    fn deps(&self, t: &T) -> Vec<usize> { (0..self.n()).filter(|&v| (0..t.len()).any(|i| { let mut x = self.vec(i); x[v] = 0; t[self.index(&x)] != t[i] })).collect() }
    fn monotone(&self, t: &T) -> bool { (0..t.len()).all(|i| (0..self.n()).all(|v| { let mut x = self.vec(i); if x[v] == 0 { return true; } x[v] -= 1; t[self.index(&x)] <= t[i] })) }
    fn dense(&self, p: &HashMap<String, usize>) -> R<usize> { if p.len() != self.n() { return Err(format!("vector {p:?} does not name the {} variables", self.n())); } let mut x = vec![0; self.n()]; for (k, s) in p { let v = self.var(k)?; if *s >= self.ar[v] { return Err(format!("state {s} of {k} in {p:?} is out of range")); } x[v] = *s; } Ok(self.index(&x)) }
    fn le(&self, i: usize, j: usize) -> bool { (0..self.n()).all(|v| self.digit(i, v) <= self.digit(j, v)) }
}
fn show(t: &T) -> String { let s: Vec<String> = t.iter().take(48).map(|x| x.map_or("?".into(), |x| x.to_string())).collect(); s.join(",") }
const OPS: [&str; 15] = ["+", "-", "*", "/", "min", "max", "==", "!=", "<", "<=", ">", ">=", "&&", "||", "xor"];
/// the value an operation must give: None where it is not specified
fn spec(op: usize, a: Option<V>, b: Option<V>) -> Option<Option<V>> {
    match (a, b) {
        (Some(a), Some(b)) => Some(match op {
            0 => Some(a + b), 1 => Some(a - b), 2 => Some(a * b), 3 => if b == 0 { None } else { Some(a / b) }, 4 => Some(a.min(b)), 5 => Some(a.max(b)),
            6 => Some((a == b) as V), 7 => Some((a != b) as V), 8 => Some((a < b) as V), 9 => Some((a <= b) as V), 10 => Some((a > b) as V), 11 => Some((a >= b) as V),
            12 => Some(a & b), 13 => Some(a | b), _ => Some(a ^ b),
        }),
        _ if op < 6 => Some(None),
        _ => None,
    }
}
type Want = Vec<Option<Option<V>>>;
fn fits(t: &Want) -> bool { t.iter().all(|x| x.flatten().map_or(true, |x| x.abs() < 1 << 20)) }
fn agree(got: &T, want: &Want) -> bool { got.iter().zip(want).all(|(g, w)| w.map_or(true, |w| *g == w)) }
fn fix(want: &Want) -> T { want.iter().map(|x| x.flatten()).collect() }

/// a well-kinded token sequence and what it means; None when it is malformed
fn expression(r: &mut Rng, w: &mut W, len: usize) -> (String, Option<(Want, bool)>) {
    let total = w.total();
    let mut toks: Vec<String> = vec![]; let mut st: Vec<(Want, bool)> = vec![]; let mut saved: HashMap<String, (Want, bool)> = HashMap::new(); let mut bad = false;
    let starve = r.chance(12);
    let mono = r.chance(30);
    for _ in 0..len {
        if starve && r.chance(12) {
            let (op, need) = if r.chance(80) { let i = r.below(14); (OPS[i].to_string(), 2) } else if r.chance(50) { ("?".into(), 3) } else { ("!".into(), 1) };
            if st.len() < need { toks.push(op); bad = true; break; }
            if r.chance(30) { toks.push("load(zz)".into()); bad = true; break; }
        }
        let m = st.len();
        let bb = m >= 2 && st[m - 1].1 == st[m - 2].1;
        if m >= 3 && st[m - 3].1 && bb && r.chance(50) {
            let c = st.pop().unwrap(); let b = st.pop().unwrap(); let a = st.pop().unwrap();
            st.push(((0..total).map(|i| match a.0[i] { Some(Some(1)) => b.0[i], Some(Some(0)) => c.0[i], _ => None }).collect(), b.1)); toks.push("?".into());
        } else if bb && r.chance(60) {
            let isb = st[m - 1].1;
            let op = if isb { 12 + r.below(2) } else if mono { [0, 2, 4, 5, 11, 10][r.below(6)] } else { r.below(12) };
            let t: Want = (0..total).map(|i| match (st[m - 2].0[i], st[m - 1].0[i]) { (Some(a), Some(b)) => spec(op, a, b), _ => None }).collect();
            if !fits(&t) { continue; }
            st.truncate(m - 2); st.push((t, isb || op >= 6)); toks.push(OPS[op].into());
        } else if m >= 1 && st[m - 1].1 && r.chance(25) { let (t, _) = st.pop().unwrap(); st.push((t.into_iter().map(|x| match x { Some(Some(v)) => Some(Some(1 - v)), _ => None }).collect(), true)); toks.push("!".into());
        } else if m >= 1 && r.chance(12) { let k = ["a", "b"][r.below(2)]; saved.insert(k.into(), st[m - 1].clone()); toks.push(format!("save({k})"));
        } else if !saved.is_empty() && r.chance(25) { let mut ks: Vec<_> = saved.keys().cloned().collect(); ks.sort(); let k = r.pick(&ks).clone(); st.push(saved[&k].clone()); toks.push(format!("load({k})"));
        } else if r.chance(8) { let b = r.chance(50); st.push((vec![Some(Some(b as V)); total], true)); toks.push(if b { "True" } else { "False" }.into());
        } else if r.chance(25) { let x = r.range(if mono { 0 } else { -3 }, 5); st.push((vec![Some(Some(x)); total], false)); toks.push(x.to_string());
        } else { let v = r.below(w.n()); w.declared(v); st.push(((0..total).map(|i| Some(Some(w.digit(i, v) as V))).collect(), false)); toks.push(w.names[v].clone()); }
    }
    if !starve { let mut k = 0; while st.len() > 1 && !bad && k < 60 { k += 1; let m = st.len(); if st[m - 1].1 != st[m - 2].1 { break; } let isb = st[m - 1].1; let op = if isb { 12 + r.below(2) } else { 4 + r.below(2) }; let t: Want = (0..total).map(|i| match (st[m - 2].0[i], st[m - 1].0[i]) { (Some(a), Some(b)) => spec(op, a, b), _ => None }).collect(); st.truncate(m - 2); st.push((t, isb)); toks.push(OPS[op].into()); } }
    let sep = [" ", "  ", "\t"][r.below(3)];
    (toks.join(sep), if !bad && st.len() == 1 { st.pop() } else { None })
}
fn subset(r: &mut Rng, t: &T) -> HashSet<V> {
    let mut vals: Vec<V> = t.iter().flatten().copied().collect(); vals.sort(); vals.dedup();
    if r.chance(50) { if let Some(m) = vals.get(r.below(vals.len().max(1))) { return vals.iter().copied().filter(|x| x >= m).collect(); } }
    let mut s: HashSet<V> = vals.into_iter().filter(|_| r.chance(50)).collect(); if r.chance(10) { s.insert(99); } s
}
fn measures(c: &mut Ctx, r: &mut Rng, w: &W, f: &H) -> R<()> {
    let (t, n) = (&f.t, w.n());
    let ss = subset(r, t);
    let inside = |i: usize| t[i].map_or(false, |x| ss.contains(&x));
    let dep = w.deps(t);
    let mut h = f.h.clone();
    if c.on("C19") {
        let pv: HashMap<String, Vec<Q>> = (0..n).map(|v| { let mut p: Vec<Q> = (0..w.ar[v] - 1).map(|_| match r.below(6) { 0 => Q(0), _ => Q(r.next() % P) }).collect(); let s = p.iter().fold(Q(1), |s, x| s - *x); p.push(s); (w.names[v].clone(), p) }).collect();
        let p = |fixed: Option<(usize, usize)>| -> Q { (0..t.len()).filter(|&i| inside(i) && fixed.map_or(true, |(v, s)| w.digit(i, v) == s)).fold(Q(0), |a, i| a + (0..n).filter(|v| fixed.map_or(true, |(u, _)| u != *v)).fold(Q(1), |x, v| x * pv[&w.names[v]][w.digit(i, v)])) };
        let sv: Vec<V> = ss.iter().copied().collect();
        let got = h.prob(&pv, &sv);
        c.check(&["C19"], got == p(None), || format!("prob of {} for {sv:?} is {got:?}, the sum over all states is {:?}", show(t), p(None)))?;
        let b = h.bmeas(&pv, &sv);
        for v in 0..n {
            let q: Vec<Q> = (0..w.ar[v]).map(|s| p(Some((v, s)))).collect();
            let want: Vec<Q> = (1..q.len()).map(|j| q[j] - q[j - 1]).collect();
            match b.get(&w.names[v]) {
                Some(g) => c.check(&["C19"], *g == want, || format!("importance of {} in {} for {sv:?} is {g:?}, the differences of the conditional sums are {want:?}", w.names[v], show(t)))?,
                None => c.check(&["C19"], !dep.contains(&v), || format!("no importance for {} although {} depends on it", w.names[v], show(t)))?,
            }
        }
        if dep.len() > 1 { c.case(&(t.clone(), sv.len())); }
    }
    if c.on("C20") {
        let top = w.order.iter().rposition(|v| dep.contains(v)).map_or(0, |x| x + 1);
        let vars = &w.order[..top];
        let want: BTreeSet<usize> = (0..t.len()).filter(|&i| inside(i) && (0..n).all(|v| vars.contains(&v) || w.digit(i, v) == 0)).collect();
        let got = h.mdd_count(&ss);
        c.check(&["C20"], got == want.len() as u64, || format!("count of {} for {ss:?} is {got}, {} state vectors of the {top} variables up to its top one qualify", show(t), want.len()))?;
        let mut seen = BTreeSet::new();
        for p in h.mdd_extract(&ss) {
            c.check(&["C20"], p.len() == vars.len() && vars.iter().all(|v| p.contains_key(&w.names[*v])), || format!("path {p:?} of {} does not give exactly the variables up to its top one", show(t)))?;
            let mut x = vec![0; n]; for (k, s) in &p { x[w.var(k)?] = *s; }
            c.check(&["C20"], x.iter().zip(&w.ar).all(|(x, a)| x < a), || format!("path {p:?} of {} leaves the range of states", show(t)))?;
            let i = w.index(&x);
            c.check(&["C20"], want.contains(&i), || format!("path {p:?} of {} for {ss:?} does not give a wanted value", show(t)))?;
            c.check(&["C20"], seen.insert(i), || format!("path {p:?} of {} is listed twice", show(t)))?;
        }
        c.check(&["C20"], seen.len() == want.len(), || format!("{} of the {} state vectors of {} for {ss:?} are listed", seen.len(), want.len(), show(t)))?;
        if dep.len() > 1 { c.case(&(t.clone(), ss.len())); }
    }
    Ok(())
}
fn vectors(w: &W, it: impl Iterator<Item = HashMap<String, usize>>) -> R<(BTreeSet<usize>, usize)> { let mut s = BTreeSet::new(); let mut k = 0; for p in it { k += 1; s.insert(w.dense(&p)?); if k > 20000 { return Err("more than 20000 vectors".into()); } } Ok((s, k)) }
fn family(c: &mut Ctx, w: &W, z: &ZmddNode<V>) -> R<()> {
    // enumeration and count of every label against the diagram itself
    use ::mddcore::mtmdd::Node;
    let rc = z.get_mgr();
    fn go(w: &W, m: &ZmddManager<V>, id: usize, rev: bool, x: &mut Vec<usize>, out: &mut Vec<(usize, V)>) -> R<()> {
        match m.get_node(&id).ok_or("no such node")? { Node::Undet => Ok(()), Node::Terminal(t) => { out.push((w.index(x), t.value())); Ok(()) }
            Node::NonTerminal(f) => { let v = w.var(m.label(&id).unwrap())?; let b = x[v]; for (i, k) in f.iter().enumerate() { x[v] = if rev { w.ar[v] - 1 - i } else { i }; go(w, m, k, rev, x, out)?; } x[v] = b; Ok(()) } }
    }
    let mut out = vec![]; let mut x: Vec<usize> = w.ar.iter().map(|a| if z.is_cut() { a - 1 } else { 0 }).collect();
    { let m = rc.borrow(); go(w, &m, z.get_id(), z.is_cut(), &mut x, &mut out)?; }
    let mut labels: Vec<V> = out.iter().map(|x| x.1).collect(); labels.sort(); labels.dedup();
    for &l in &labels {
        let want: BTreeSet<usize> = out.iter().filter(|x| x.1 == l).map(|x| x.0).collect();
        let ss: HashSet<V> = [l].into_iter().collect();
        let (got, k) = vectors(w, z.extract(&ss))?;
        c.check(&["C22"], got == want && k == want.len(), || format!("label {l}: the family holds {want:?}, {k} vectors are listed: {got:?}"))?;
        c.check(&["C22"], z.count(&ss) == want.len() as u64, || format!("label {l}: the family holds {} vectors, the count is {}", want.len(), z.count(&ss)))?;
    }
    let all: HashSet<V> = labels.iter().copied().collect();
    c.check(&["C22"], z.count(&all) == out.len() as u64 && z.count(&HashSet::new()) == 0 && z.labels() == labels, || format!("{} members, the count is {}; labels {labels:?}, reported {:?}", out.len(), z.count(&all), z.labels()))
}
fn minimals(c: &mut Ctx, r: &mut Rng, w: &W, f: &H, keep: &mut Vec<(ZmddNode<V>, Vec<BTreeSet<usize>>, Vec<V>)>) -> R<()> {
    let t = &f.t;
    if t.iter().any(|x| x.is_none()) || w.order.len() < w.n() { return Ok(()); }
    let t: Vec<V> = t.iter().map(|x| x.unwrap()).collect();
    let cut = r.chance(50); let what = if cut { "minimal cuts" } else { "minimal paths" };
    let mono = w.monotone(&f.t);
    let z = if cut { w.mgr.mincut(&f.h) } else { w.mgr.minpath(&f.h) };
    match z {
        None => c.check(&["C21"], !mono, || format!("no {what} for the monotone function {}", show(&f.t)))?,
        Some(z) => {
            c.check(&["C21"], mono, || format!("{what} for {} although it is not monotone", show(&f.t)))?;
            if !mono { return Ok(()); }
            c.check(&["C21"], z.is_cut() == cut, || format!("{what}: the family says is_cut = {}", z.is_cut()))?;
            let mut vals = t.clone(); vals.sort(); vals.dedup();
            let strat = |p: &dyn Fn(V) -> bool| -> BTreeSet<usize> { (0..t.len()).filter(|&i| p(t[i]) && (0..t.len()).all(|j| j == i || !p(t[j]) || !(if cut { w.le(i, j) } else { w.le(j, i) }))).collect() };
            let mut sets = vec![];
            for &v in &vals {
                let (got, k) = vectors(w, z.extract(&[v].into_iter().collect()))?;
                let want = strat(&|x| x == v);
                c.check(&["C21"], got == want, || format!("{what} of {} with value {v} are {:?}, they should be {:?}", show(&f.t), got.iter().map(|i| w.vec(*i)).collect::<Vec<_>>(), want.iter().map(|i| w.vec(*i)).collect::<Vec<_>>()))?;
                c.check(&["C22"], got == want && k == want.len(), || format!("{what} of {}: label {v} lists {k} vectors, the family should hold {}", show(&f.t), want.len()))?;
                sets.push(got);
            }
            for v in vals[0] - 1..=vals[vals.len() - 1].min(vals[0] + 12) + 1 {
                let (got, k) = vectors(w, z.extract_level(v).into_iter())?;
                let want = if cut { strat(&|x| x <= v) } else { strat(&|x| x >= v) };
                c.check(&["C21"], got == want && k == want.len(), || format!("{what} of {} at level {v} are {:?}, they should be {:?}", show(&f.t), got.iter().map(|i| w.vec(*i)).collect::<Vec<_>>(), want.iter().map(|i| w.vec(*i)).collect::<Vec<_>>()))?;
            }
            if vals.len() > 1 { c.case(&(t.clone(), cut)); }
            if c.on("C22") { family(c, w, &z)?; if let Some(y) = keep.last() { if r.chance(30) { let u = y.0.clone(); let _ = (z.intersect(&u), z.setdiff(&u)); } } }
            keep.push((z, sets, vals));
        }
    }
    Ok(())
}

pub fn history(c: &mut Ctx, r: &mut Rng, big: bool) -> R<()> {
    let n = if big { 4 } else { 1 + r.below(3) };
    let names: Vec<String> = (0..n).map(|i| ["x", "yy", "z", "u"][i].to_string()).collect();
    let ar: Vec<usize> = (0..n).map(|_| 2 + r.below(3)).collect();
    let vars: HashMap<String, usize> = names.iter().cloned().zip(ar.iter().copied()).collect();
    let mut w = W { mgr: MssMgr::new(), names, ar, order: vec![], vars };
    if r.chance(60) { w.mgr.set_gc_threshold(r.below(60)); }
    let total = w.total();
    let perm = r.perm(n);
    let lazy = c.on("C17") || c.on("C20") && r.chance(30);
    for &v in perm.iter().take(if lazy { r.below(n + 1) } else { n }) { w.mgr.defvar(&w.names[v].clone(), w.ar[v]); w.declared(v); }
    c.say(format!("variables {:?} with {:?} states, declared {:?}", w.names, w.ar, w.order));
    let mono_bias = c.on("C21") || c.on("C22");
    let mut pool: Vec<H> = vec![H { h: w.mgr.boolean(false), t: vec![Some(0); total], b: true }, H { h: w.mgr.boolean(true), t: vec![Some(1); total], b: true }, H { h: w.mgr.value(0), t: vec![Some(0); total], b: false }];
    if !mono_bias && r.chance(40) { pool.push(H { h: w.mgr.undet_value(), t: vec![None; total], b: false }); pool.push(H { h: w.mgr.undet_boolean(), t: vec![None; total], b: true }); }
    let mut fam: Vec<(ZmddNode<V>, Vec<BTreeSet<usize>>, Vec<V>)> = vec![];
    for _ in 0..(8 + r.below(if big { 16 } else { 30 })) {
        let pick = |r: &mut Rng, pool: &Vec<H>, b: bool| -> H { for _ in 0..20 { let i = if r.chance(60) { pool.len() - 1 - r.below(pool.len().min(8)) } else { r.below(pool.len()) }; if pool[i].b == b { return pool[i].clone(); } } pool[if b { 0 } else { pool.iter().position(|x| !x.b).unwrap() }].clone() };
        let k = r.below(100);
        if c.on("C18") && r.chance(14) && pool.len() > 4 {
            // hold a part, fetch and drop the parts again, drop the whole, collect
            let i = 3 + r.below(pool.len() - 3); let f = pool[i].clone();
            let Some(ps) = f.h.get_children() else { continue };
            let v = w.var(&f.h.get_label().unwrap())?; let j = r.below(ps.len());
            let x = H { h: ps[j].clone(), t: (0..total).map(|i| f.t[w.put(i, v, j)]).collect(), b: f.b };
            drop(ps); for _ in 0..r.below(3) { drop(f.h.get_children()); drop(x.h.clone()); }
            c.say(format!("part {j} of {} held as {}, the other parts dropped", f.h.get_id(), x.h.get_id()));
            drop(f); pool.push(x);
            if r.chance(80) { pool.swap_remove(i); }
            if r.chance(60) { let mut at = 3; while at < pool.len() - 1 { if r.chance(50) { pool.remove(at); } else { at += 1; } } }
            let freed = w.mgr.gc(&[]); c.say(format!("gc -> {freed:?}")); live(c, &w, &pool)?;
            for f in &pool { let now = w.table(&f.h).map_err(|e| format!("the function behind the handle of node {} is gone: {e}", f.h.get_id()))?; c.check(&["C18"], now == f.t, || format!("the handle of node {} stood for {} and now stands for {}", f.h.get_id(), show(&f.t), show(&now)))?; }
            continue;
        }
        let (node, want, isb, what): (MddNode<V>, Want, bool, String);
        if k < 22 || pool.len() < 5 {
            if c.on("C17") || r.chance(35) {
                let len = 1 + r.below(22);
                let (e, m) = expression(r, &mut w, len);
                let got = w.mgr.rpn(&e, &w.vars.clone());
                match (got, m) {
                    (Err(x), None) => { c.say(format!("rpn({e:?}) -> error {x}")); c.check(&["C17"], true, String::new)?; c.case(&e); continue; }
                    (Err(x), Some(_)) => { c.check(&["C17"], false, || format!("rpn({e:?}) is reported as {x}, it is well formed"))?; continue; }
                    (Ok(f), None) => { c.check(&["C17"], false, || format!("rpn({e:?}) yields node {}, it is malformed", f.get_id()))?; continue; }
                    (Ok(f), Some((t, b))) => {
                        let names: Vec<(String, usize)> = w.order.iter().map(|v| (w.names[*v].clone(), w.ar[*v])).collect();
                        c.check(&["C17"], w.mgr.get_varorder() == names, || format!("after rpn({e:?}) the variables are {:?}, they should be {names:?}", w.mgr.get_varorder()))?;
                        node = f; want = t; isb = b; what = format!("rpn({e:?})"); c.case(&e); }
                }
            } else if w.order.is_empty() || r.chance(20) { let x = r.range(-2, 6); node = w.mgr.value(x); want = vec![Some(Some(x)); total]; isb = false; what = format!("value {x}");
            } else { let v = w.order[r.below(w.order.len())]; node = w.mgr.defvar(&w.names[v].clone(), w.ar[v]); want = (0..total).map(|i| Some(Some(w.digit(i, v) as V))).collect(); isb = false; what = format!("variable {}", w.names[v]); }
        } else if k < 62 {
            let op = if mono_bias && r.chance(80) { [0, 2, 4, 5, 10, 11, 12, 13, 12, 13][r.below(10)] } else { r.below(18) };
            if op < 15 {
                let (f, g) = (pick(r, &pool, op >= 12), pick(r, &pool, op >= 12));
                let t: Want = (0..total).map(|i| spec(op, f.t[i], g.t[i])).collect();
                if !fits(&t) { continue; }
                node = match op { 0 => f.h.add(&g.h), 1 => f.h.sub(&g.h), 2 => f.h.mul(&g.h), 3 => f.h.div(&g.h), 4 => f.h.min(&g.h), 5 => f.h.max(&g.h), 6 => MddNode::eq(&f.h, &g.h), 7 => MddNode::ne(&f.h, &g.h), 8 => MddNode::lt(&f.h, &g.h), 9 => MddNode::le(&f.h, &g.h), 10 => MddNode::gt(&f.h, &g.h), 11 => MddNode::ge(&f.h, &g.h), 12 => f.h.and(&g.h), 13 => f.h.or(&g.h), _ => f.h.xor(&g.h) };
                want = t; isb = op >= 6; what = format!("{} {} {}", f.h.get_id(), OPS[op], g.h.get_id());
            } else if op == 15 { let f = pick(r, &pool, true); node = f.h.not(); want = f.t.iter().map(|x| x.map(|x| Some(1 - x))).collect(); isb = true; what = format!("not {}", f.h.get_id());
            } else {
                let b = r.chance(50); let (f, g, h) = (pick(r, &pool, true), pick(r, &pool, b), pick(r, &pool, b));
                node = f.h.ite(&g.h, &h.h); want = (0..total).map(|i| match f.t[i] { Some(1) => Some(g.t[i]), Some(0) => Some(h.t[i]), _ => None }).collect(); isb = b; what = format!("ite({}, {}, {})", f.h.get_id(), g.h.get_id(), h.h.get_id());
            }
        } else if k < 68 {
            let m = 1 + r.below(4); let op = r.below(4); let b = op < 2;
            let xs: Vec<H> = (0..m).map(|_| pick(r, &pool, b)).collect(); let ns: Vec<MddNode<V>> = xs.iter().map(|x| x.h.clone()).collect();
            node = match op { 0 => w.mgr.and(&ns), 1 => w.mgr.or(&ns), 2 => w.mgr.min(&ns), _ => w.mgr.max(&ns) };
            want = (0..total).map(|i| { let v: Option<Vec<V>> = xs.iter().map(|x| x.t[i]).collect(); match v { None if b => None, None => Some(None), Some(v) => Some(match op { 0 | 2 => v.into_iter().min(), _ => v.into_iter().max() }) } }).collect();
            isb = b; what = format!("{} of {:?}", ["and", "or", "min", "max"][op], ns.iter().map(|x| x.get_id()).collect::<Vec<_>>());
        } else if k < 70 {
            let b = r.chance(50); let f = pick(r, &pool, b);
            let Some(ps) = f.h.get_children() else { continue };
            let v = w.var(&f.h.get_label().unwrap())?;
            if r.chance(40) { c.say(format!("parts of {} fetched and dropped", f.h.get_id())); continue; }
            let j = r.below(ps.len()); node = ps[j].clone(); isb = b; what = format!("part {j} of {}", f.h.get_id());
            want = (0..total).map(|i| Some(f.t[w.put(i, v, j)])).collect();
        } else if k < 74 { if pool.len() > 5 { let i = 3 + r.below(pool.len() - 3); let d = pool.swap_remove(i); c.say(format!("drop handle of {}", d.h.get_id())); } continue;
        } else if k < 78 { let keep: Vec<&MddNode<V>> = pool.iter().filter(|_| r.chance(20)).map(|x| &x.h).collect(); let freed = w.mgr.gc(&keep); c.say(format!("gc -> {freed:?}")); live(c, &w, &pool)?; continue;
        } else if k < 94 {
            let b = r.chance(50); let f = pick(r, &pool, b);
            if c.on("C19") || c.on("C20") { measures(c, r, &w, &f)?; } else if mono_bias { minimals(c, r, &w, &f, &mut fam)?; }
            continue;
        } else { w.mgr.clear_cache(); c.say("clear_cache"); continue; }
        let got = w.table(&node).map_err(|e| format!("{what}: {e}"))?;
        c.say(format!("{what} -> {} = {}", node.get_id(), show(&got)));
        c.check(if what.starts_with("rpn") { &["C17", "C18"] } else { &["C18"] }, agree(&got, &want), || format!("{what} -> {} is {}, it should be {}", node.get_id(), show(&got), show(&fix(&want))))?;
        c.check(&["C17"], node.is_boolean() == isb, || format!("{what} gives the wrong kind of function"))?;
        if c.on("C18") { c.case(&(got.clone(), pool.len(), w.mgr.live_node_count())); }
        pool.push(H { h: node, t: got, b: isb });
        if c.on("C18") || r.chance(10) { for f in &pool { let now = w.table(&f.h).map_err(|e| format!("the function behind the handle of node {} is gone: {e}", f.h.get_id()))?; c.check(&["C18"], now == f.t, || format!("the handle of node {} stood for {} and now stands for {}", f.h.get_id(), show(&f.t), show(&now)))?; } }
        let last = pool.last().unwrap().clone();
        if (c.on("C19") || c.on("C20")) && r.chance(40) { measures(c, r, &w, &last)?; }
        if mono_bias && r.chance(40) { minimals(c, r, &w, &last, &mut fam)?; }
        if c.on("C22") { for (z, sets, vals) in fam.iter().take(2) { for (v, s) in vals.iter().zip(sets) { let (now, k) = vectors(&w, z.extract(&[*v].into_iter().collect()))?; c.check(&["C22"], now == *s && k == s.len(), || format!("label {v} of a family was {s:?} and is now {now:?}"))?; } } }
    }
    if c.on("C18") { pool.clear(); w.mgr.gc(&[]); live(c, &w, &pool)?; }
    Ok(())
}
/// what is live is what the handles and variables reach, and the constants
fn live(c: &mut Ctx, w: &W, pool: &Vec<H>) -> R<()> {
    if !c.on("C18") { return Ok(()); }
    use ::mddcore::{mdd, mtmdd, mtmdd2::Node};
    let rc = match pool.first() { Some(x) => x.h.get_mgr(), None => w.mgr.boolean(true).get_mgr() };
    let mut st: Vec<Node> = pool.iter().map(|x| x.h.get_node()).collect();
    let m = rc.borrow();
    // the variables are kept by the manager itself: found among the live nodes of one level
    let mut vs = 0; let mut seen: HashSet<Node> = HashSet::new();
    for v in &w.order { let _ = v; vs += 1; }
    let (_, n2) = (m.mtmdd().size(), m.mtmdd().size().1);
    let mut found = 0;
    for id in 0..n2 { if let Some(mtmdd::Node::NonTerminal(f)) = m.mtmdd().get_node(&id) { let name = m.mtmdd().get_header(&f.headerid()).unwrap().label().to_string(); let v = w.var(&name)?; if f.iter().enumerate().all(|(i, k)| matches!(m.mtmdd().get_node(&k), Some(mtmdd::Node::Terminal(t)) if t.value() == i as V)) && f.iter().count() == w.ar[v] { if !st.contains(&Node::Value(id)) { st.push(Node::Value(id)); } found += 1; } } }
    c.check(&["C18"], found >= vs, || format!("{found} of the {vs} variables are still there after a collection"))?;
    while let Some(x) = st.pop() { if seen.insert(x) { match x { Node::Value(i) => if let Some(mtmdd::Node::NonTerminal(f)) = m.mtmdd().get_node(&i) { st.extend(f.iter().map(Node::Value)) }, Node::Bool(i) => if let Some(mdd::Node::NonTerminal(f)) = m.mdd().get_node(&i) { st.extend(f.iter().map(Node::Bool)) } } } }
    let want: HashSet<Node> = seen.into_iter().chain([m.undet_value(), m.undet_boolean(), m.zero(), m.one()]).collect();
    c.check(&["C18"], m.live_node_count() == want.len(), || format!("after a collection {} nodes are live, {} are reached from the handles and variables or constant", m.live_node_count(), want.len()))
}

/// counts over many variables of which few matter
pub fn wide(c: &mut Ctx, r: &mut Rng, _big: bool) -> R<()> {
    let n = 8 + r.below(20);
    let mut m: MddMgr<V> = MddMgr::new();
    let ar: Vec<usize> = (0..n).map(|_| 2 + r.below(3)).collect();
    let vs: Vec<MddNode<V>> = (0..n).map(|i| m.defvar(&format!("v{i}"), ar[i])).collect();
    let (a, b) = (r.below(n), r.below(n));
    let k = r.below(5) as V;
    let (f, isb) = match r.below(3) { 0 => (vs[a].add(&vs[b]), false), 1 => (vs[a].max(&vs[b]), false), _ => (MddNode::ge(&vs[a].add(&vs[b]), &m.value(k)), true) };
    let sum = !isb && { let x = vs[a].add(&vs[b]); x.get_id() == f.get_id() };
    let phi = |x: usize, y: usize| -> V { if isb { (x as V + y as V >= k) as V } else if sum { (x + y) as V } else { x.max(y) as V } };
    let mut cells: Vec<V> = vec![]; for x in 0..ar[a] { for y in 0..ar[b] { if a == b && x != y { continue; } cells.push(phi(x, y)); } }
    if isb && cells.iter().all(|v| *v == cells[0]) { return Ok(()); }
    // top variable: the higher one the function depends on
    let dep = |p: usize| -> bool { let q = if p == a { b } else { a }; (0..ar[q]).any(|y| (1..ar[p]).any(|x| { let at = |x: usize| if p == q { phi(x, x) } else if p == a { phi(x, y) } else { phi(y, x) }; at(x) != at(0) })) };
    let ds: Vec<usize> = { let mut d: Vec<usize> = [a, b].into_iter().filter(|p| dep(*p)).collect(); d.sort(); d.dedup(); d };
    let Some(&top) = ds.last() else { return Ok(()) };
    let free: u64 = (0..=top).filter(|i| !ds.contains(i)).map(|i| ar[i] as u64).product();
    let over: u64 = [a, b].iter().collect::<HashSet<_>>().iter().filter(|p| !ds.contains(**p)).map(|p| ar[**p] as u64).product();
    c.say(format!("states {ar:?}, a function of variables {a} and {b}: {:?}", cells));
    for v in 0..8 {
        let ss: HashSet<V> = [v].into_iter().collect();
        let want = cells.iter().filter(|x| **x == v).count() as u64 / over * free;
        let got: u64 = f.mdd_count(&ss);
        c.check(&["C20"], got == want, || format!("the count for {v} is {got}, it should be {want}"))?;
    }
    c.case(&(ar, a, b, isb, k));
    Ok(())
}
