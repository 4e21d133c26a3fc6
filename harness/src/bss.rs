//! Binary systems: random histories of handles over a small forest against explicit truth tables.
use crate::ctx::*;
use crate::rng::Rng;
use ::bss::prelude::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

/// arithmetic modulo a prime: exact sums and products, so that results can be compared for equality
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Q(pub u64);
pub const P: u64 = 2305843009213693951;
impl From<f64> for Q { fn from(x: f64) -> Q { assert!(x.fract() == 0.0 && x.abs() < 1e15, "a probability computed from a fraction"); Q((x as i64).rem_euclid(P as i64) as u64) } }
impl std::ops::Add for Q { type Output = Q; fn add(self, o: Q) -> Q { Q((self.0 + o.0) % P) } }
impl std::ops::Sub for Q { type Output = Q; fn sub(self, o: Q) -> Q { Q((self.0 + P - o.0) % P) } }
impl std::ops::Mul for Q { type Output = Q; fn mul(self, o: Q) -> Q { Q((self.0 as u128 * o.0 as u128 % P as u128) as u64) } }

/// values by assignment of the n named variables (bit i = variable i)
pub type T = Vec<bool>;
pub struct W { pub mgr: BssMgr, pub names: Vec<String>, pub order: Vec<usize>, pub n: usize }
impl W {
    fn var(&self, name: &str) -> R<usize> { self.names.iter().position(|x| x == name).ok_or(format!("unknown label {name}")) }
    pub fn table(&self, f: &BddNode) -> R<T> {
        let rc = f.get_mgr(); let m = rc.borrow();
        fn go(w: &W, m: &BddManager, id: usize, below: usize, memo: &mut HashMap<usize, T>) -> R<T> {
            match m.get_node(&id).ok_or("no such node")? {
                Node::Zero => Ok(vec![false; 1 << w.n]), Node::One => Ok(vec![true; 1 << w.n]), Node::Undet => Err("an undetermined part".into()),
                Node::NonTerminal(x) => {
                    let l = m.level(&id).unwrap();
                    if l >= below { return Err(format!("node {id} at level {l} under one at level {below}: not ordered")); }
                    if let Some(t) = memo.get(&id) { return Ok(t.clone()); }
                    let v = w.var(m.label(&id).unwrap())?;
                    let a = go(w, m, x.edge(0), l, memo)?; let b = go(w, m, x.edge(1), l, memo)?;
                    let t: T = (0..1 << w.n).map(|i| if i >> v & 1 == 1 { b[i] } else { a[i] }).collect();
                    memo.insert(id, t.clone()); Ok(t)
                }
            }
        }
        go(self, &m, f.get_id(), usize::MAX, &mut HashMap::new())
    }
    /// note new variables in the order the manager declares them
    fn declared(&mut self, v: usize) { if !self.order.contains(&v) { self.order.push(v) } }
}
fn show(t: &T) -> String { t.iter().take(64).map(|b| if *b { '1' } else { '0' }).collect() }
fn subset(r: &mut Rng) -> Vec<bool> { [vec![true], vec![true], vec![false], vec![true, false], vec![], vec![true, true]][r.below(6)].clone() }
fn deps(t: &T, n: usize) -> Vec<usize> { (0..n).filter(|v| (0..t.len()).any(|i| t[i] != t[i ^ 1 << v])).collect() }
fn family(it: impl Iterator<Item = Vec<String>>, w: &W) -> R<(BTreeSet<usize>, usize)> {
    let mut s = BTreeSet::new(); let mut k = 0;
    for x in it { k += 1; let mut m = 0; for e in &x { let b = 1 << w.var(e)?; if m & b != 0 { return Err(format!("{e} twice in one set {x:?}")); } m |= b; } s.insert(m); if k > 5000 { return Err("more than 5000 sets".into()); } }
    Ok((s, k))
}
fn minimal(t: &T) -> BTreeSet<usize> { (0..t.len()).filter(|&i| t[i] && (0..t.len()).all(|j| !(t[j] && j != i && j & i == j))).collect() }
fn monotone(t: &T, n: usize) -> bool { (0..t.len()).all(|i| (0..n).all(|v| i >> v & 1 == 1 || !t[i] || t[i | 1 << v])) }

/// a token sequence and what it means: the table, or none when it is malformed
fn expression(r: &mut Rng, w: &mut W, len: usize) -> (String, Option<T>) {
    let full = 1usize << w.n;
    let mut toks: Vec<String> = vec![]; let mut st: Vec<T> = vec![]; let mut saved: HashMap<String, T> = HashMap::new(); let mut bad = false;
    let wild = r.chance(15);
    for k in 0..len {
        let closing = k * 3 > len * 2;
        let c = r.below(100);
        let pick = if st.len() < 2 && !(wild && r.chance(30)) { if st.len() == 1 && c < 15 { 60 } else { 0 } } else if closing { 30 + r.below(70) } else { c };
        let tok = if pick < 30 { match r.below(12) { 0 => "0".into(), 1 => "1".into(), 2 => "True".to_string(), 3 => "False".to_string(), _ => w.names[r.below(w.n)].clone() } }
            else if pick < 45 { "&".into() } else if pick < 58 { "|".into() } else if pick < 64 { "~".into() } else if pick < 74 { "^".into() } else if pick < 80 { "?".into() }
            else if pick < 88 { format!("save({})", ["a", "b", ""][r.below(3)]) } else if pick < 96 { let k = ["a", "b", ""][r.below(3)]; if saved.contains_key(k) || (wild && r.chance(30)) { format!("load({k})") } else { w.names[r.below(w.n)].clone() } }
            else { w.names[r.below(w.n)].clone() };
        if tok == "?" && st.len() < 3 && !wild { continue; }
        toks.push(tok.clone());
        if bad { continue; }
        let mut pop = || st.pop();
        match tok.as_str() {
            "0" | "False" => st.push(vec![false; full]), "1" | "True" => st.push(vec![true; full]),
            "&" | "|" | "^" => match (pop(), pop()) { (Some(b), Some(a)) => st.push((0..full).map(|i| match tok.as_str() { "&" => a[i] && b[i], "|" => a[i] || b[i], _ => a[i] != b[i] }).collect()), _ => bad = true },
            "~" => match pop() { Some(a) => st.push(a.iter().map(|x| !x).collect()), None => bad = true },
            "?" => match (pop(), pop(), pop()) { (Some(c), Some(b), Some(a)) => st.push((0..full).map(|i| if a[i] { b[i] } else { c[i] }).collect()), _ => bad = true },
            x if x.starts_with("save(") => match st.last() { Some(a) => { saved.insert(x[5..x.len() - 1].to_string(), a.clone()); } None => bad = true },
            x if x.starts_with("load(") => match saved.get(&x[5..x.len() - 1]) { Some(a) => st.push(a.clone()), None => bad = true },
            x => { let v = w.names.iter().position(|n| n == x).unwrap(); w.declared(v); st.push((0..full).map(|i| i >> v & 1 == 1).collect()); }
        }
    }
    if !wild { while st.len() > 1 && !bad { toks.push("|".into()); let (b, a) = (st.pop().unwrap(), st.pop().unwrap()); st.push((0..full).map(|i| a[i] || b[i]).collect()); } }
    let sep = [" ", "  ", "\t"][r.below(3)];
    (toks.join(sep), if !bad && st.len() == 1 { st.pop() } else { None })
}

/// the sums and counts of one function
fn measures(c: &mut Ctx, r: &mut Rng, w: &W, f: &BddNode, t: &T) -> R<()> {
    let n = w.n;
    let ss = subset(r);
    let inside = |i: usize| ss.contains(&t[i]);
    let dep = deps(t, n);
    if c.on("C13") {
        let pv: HashMap<String, Q> = w.names.iter().map(|x| (x.clone(), match r.below(6) { 0 => Q(0), 1 => Q(1), _ => Q(r.next() % P) })).collect();
        let p = |fix: Option<(usize, bool)>| -> Q { (0..t.len()).filter(|&i| inside(i) && fix.map_or(true, |(v, b)| (i >> v & 1 == 1) == b)).fold(Q(0), |s, i| s + (0..n).filter(|v| fix.map_or(true, |(u, _)| u != *v)).fold(Q(1), |x, v| x * if i >> v & 1 == 1 { pv[&w.names[v]] } else { Q(1) - pv[&w.names[v]] })) };
        let got = f.prob(&pv, &ss);
        c.check(&["C13"], got == p(None), || format!("prob of {} for {ss:?} with {pv:?} is {got:?}, the sum over all states is {:?}", show(t), p(None)))?;
        let b = f.bmeas(&pv, &ss);
        for v in 0..n {
            let want = p(Some((v, true))) - p(Some((v, false)));
            match b.get(&w.names[v]) {
                Some(g) => c.check(&["C13"], *g == want, || format!("importance of {} in {} for {ss:?} with {pv:?} is {g:?}, the difference of the conditional sums is {want:?}", w.names[v], show(t)))?,
                None => c.check(&["C13"], !dep.contains(&v), || format!("no importance for {} although {} depends on it", w.names[v], show(t)))?,
            }
        }
        if dep.len() > 1 { c.case(&(t.clone(), ss.clone(), pv.values().filter(|x| x.0 < 2).count())); }
    }
    if c.on("C14") {
        let top = w.order.iter().rposition(|v| dep.contains(v)).map_or(0, |x| x + 1);
        let vars: Vec<usize> = w.order[..top].to_vec();
        let want: BTreeSet<usize> = (0..1usize << vars.len()).map(|k| vars.iter().enumerate().map(|(j, v)| (k >> j & 1) << v).sum::<usize>()).filter(|&i| inside(i)).collect();
        let got = f.bdd_count(&ss);
        c.check(&["C14"], got == want.len() as u64, || format!("count of {} for {ss:?} is {got}, {} assignments of the {top} variables up to its top one qualify", show(t), want.len()))?;
        let mut seen = BTreeSet::new();
        for p in f.bdd_extract(&ss) {
            let mut i = 0usize; let mut m = 0usize;
            for e in &p { let (pos, x) = match e.strip_prefix('~') { Some(x) => (0, x), None => (1, e.as_str()) }; let v = w.var(x)?; if m >> v & 1 == 1 { return Err(format!("{x} twice in path {p:?}")); } m |= 1 << v; i |= pos << v; }
            c.check(&["C14"], vars.iter().all(|v| m >> v & 1 == 1) && m.count_ones() as usize == vars.len(), || format!("path {p:?} of {} does not assign exactly the variables up to its top one", show(t)))?;
            c.check(&["C14"], want.contains(&i), || format!("path {p:?} of {} for {ss:?} does not give a wanted value", show(t)))?;
            c.check(&["C14"], seen.insert(i), || format!("path {p:?} of {} is listed twice", show(t)))?;
        }
        c.check(&["C14"], seen.len() == want.len(), || format!("{} of the {} assignments of {} for {ss:?} are listed", seen.len(), want.len(), show(t)))?;
        if dep.len() > 1 { c.case(&(t.clone(), ss)); }
    }
    Ok(())
}
fn minimals(c: &mut Ctx, r: &mut Rng, w: &W, f: &BddNode, t: &T, keep: &mut Vec<(ZddNode, BTreeSet<usize>)>) -> R<()> {
    let n = w.n;
    let cut = r.chance(40);
    let base: T = if cut { (0..t.len()).map(|i| !t[t.len() - 1 - i]).collect() } else { t.clone() };
    let tag: &[&str] = if cut { &["C16"] } else { &["C15"] };
    let mono = monotone(t, n);
    let z = if cut { w.mgr.mincut(f) } else { w.mgr.minpath(f) };
    let what = if cut { "minimal cuts" } else { "minimal paths" };
    match z {
        None => c.check(tag, !mono, || format!("no {what} for the monotone function {}", show(t)))?,
        Some(z) => {
            c.check(tag, mono, || format!("{what} for {} although it is not monotone", show(t)))?;
            if !mono { return Ok(()); }
            let want = minimal(&base);
            let (got, k) = family(z.extract(&[true]), w)?;
            c.check(tag, got == want, || format!("{what} of {} are {got:?}, they should be {want:?} (sets as bit masks)", show(t)))?;
            c.check(&["C22"], got == want && k == got.len() && z.count(&[true]) == k as u64, || format!("{what} of {}: the family holds {want:?}, {k} sets {got:?} are listed, the count is {}", show(t), z.count(&[true])))?;
            if want.len() > 1 { c.case(&(t.clone(), cut)); }
            keep.push((z, want));
        }
    }
    Ok(())
}
fn zdds(c: &mut Ctx, w: &W, a: &(ZddNode, BTreeSet<usize>), b: &(ZddNode, BTreeSet<usize>), op: usize) -> R<(ZddNode, BTreeSet<usize>)> {
    let op = if op == 4 && b.1.is_empty() { 2 } else { op };
    let z = match op { 0 => a.0.union(&b.0), 1 => a.0.intersect(&b.0), 2 => a.0.setdiff(&b.0), 3 => a.0.product(&b.0), _ => a.0.divide(&b.0) };
    let full = 1usize << w.n;
    let want: BTreeSet<usize> = match op {
        0 => &a.1 | &b.1, 1 => &a.1 & &b.1, 2 => &a.1 - &b.1,
        3 => a.1.iter().flat_map(|x| b.1.iter().map(move |y| x | y)).collect(),
        _ => (0..full).filter(|q| b.1.iter().all(|y| q & y == 0 && a.1.contains(&(q | y)))).collect(),
    };
    let _ = c; Ok((z, want))
}

pub fn history(c: &mut Ctx, r: &mut Rng, big: bool) -> R<()> {
    let n = if big { 7 } else { 1 + r.below(5) };
    let names: Vec<String> = (0..n).map(|i| ["a", "b", "cc", "d", "e", "f", "g"][i].to_string()).collect();
    let mut w = W { mgr: BssMgr::new(), names, order: vec![], n };
    if r.chance(60) { w.mgr.bdd().set_gc_threshold(r.below(40)); w.mgr.zdd().set_gc_threshold(r.below(20)); }
    let full = 1usize << n;
    let declare = r.perm(n);
    for &v in declare.iter().take(if c.on("C17") { r.below(n + 1) } else { n }) { w.mgr.defvar(&w.names[v].clone()); w.declared(v); }
    c.say(format!("variables {:?}", w.order.iter().map(|v| w.names[*v].clone()).collect::<Vec<_>>()));
    let mut pool: Vec<(BddNode, T)> = vec![(w.mgr.zero(), vec![false; full]), (w.mgr.one(), vec![true; full])];
    let mut fam: Vec<(ZddNode, BTreeSet<usize>)> = vec![];
    let mono_bias = c.on("C15") || c.on("C16") || c.on("C22");
    for _ in 0..(8 + r.below(if big { 20 } else { 40 })) {
        let pick = |r: &mut Rng, pool: &Vec<(BddNode, T)>| -> usize { if r.chance(60) { pool.len() - 1 - r.below(pool.len().min(6)) } else { r.below(pool.len()) } };
        let k = r.below(100);
        if c.on("C18") && r.chance(14) && pool.len() > 3 {
            // hold a part, fetch and drop the parts again, drop the whole, collect
            let i = 2 + r.below(pool.len() - 2); let (f, t) = pool[i].clone();
            let Some((a, b)) = f.get_children() else { continue };
            let v = w.var(&f.get_label().unwrap())?; let j = r.below(2);
            let x = (if j == 0 { a.clone() } else { b.clone() }, (0..full).map(|i| t[if j == 1 { i | 1 << v } else { i & !(1 << v) }]).collect::<T>());
            drop((a, b)); for _ in 0..r.below(3) { drop(f.get_children()); drop(x.0.clone()); }
            c.say(format!("part {j} of {} held as {}, the other dropped", f.get_id(), x.0.get_id()));
            drop(f); pool.push(x);
            if r.chance(80) { pool.swap_remove(i); }
            if r.chance(60) { let mut at = 2; while at < pool.len() - 1 { if r.chance(50) { pool.remove(at); } else { at += 1; } } }
            let freed = w.mgr.bdd().gc(&[]); c.say(format!("gc -> {freed}"));
            for (f, t) in &pool { let now = w.table(f).map_err(|e| format!("the function behind the handle of node {} is gone: {e}", f.get_id()))?; c.check(&["C18"], now == *t, || format!("the handle of node {} stood for {} and now stands for {}", f.get_id(), show(t), show(&now)))?; }
            continue;
        }
        let (node, want, what): (BddNode, T, String);
        if k < 22 || pool.len() < 4 {
            if c.on("C17") || r.chance(30) {
                let len = 1 + r.below(24);
                let (e, m) = expression(r, &mut w, len);
                let got = w.mgr.rpn(&e);
                let names: Vec<String> = w.order.iter().map(|v| w.names[*v].clone()).collect();
                match (got, m) {
                    (Err(x), None) => { c.say(format!("rpn({e:?}) -> error {x}")); c.check(&["C17"], true, String::new)?; c.case(&e); continue; }
                    (Err(x), Some(_)) => { c.check(&["C17"], false, || format!("rpn({e:?}) is reported as {x}, it is well formed"))?; continue; }
                    (Ok(f), None) => { c.check(&["C17"], false, || format!("rpn({e:?}) yields node {}, it is malformed", f.get_id()))?; continue; }
                    (Ok(f), Some(t)) => { c.check(&["C17"], w.mgr.get_varorder() == names, || format!("after rpn({e:?}) the variables are {:?}, they should be {names:?}", w.mgr.get_varorder()))?; node = f; want = t; what = format!("rpn({e:?})"); c.case(&e); }
                }
            } else { let v = w.order[r.below(w.order.len())]; node = w.mgr.defvar(&w.names[v].clone()); want = (0..full).map(|i| i >> v & 1 == 1).collect(); what = format!("variable {}", w.names[v]); }
        } else if k < 55 {
            let (i, j, l) = (pick(r, &pool), pick(r, &pool), pick(r, &pool));
            let (f, g, h) = (&pool[i], &pool[j], &pool[l]);
            let op = if mono_bias && r.chance(80) { r.below(2) } else { r.below(5) };
            let z = |x: fn(bool, bool, bool) -> bool| -> T { (0..full).map(|i| x(f.1[i], g.1[i], h.1[i])).collect() };
            (node, want, what) = match op {
                0 => (f.0.and(&g.0), z(|a, b, _| a && b), "and"), 1 => (f.0.or(&g.0), z(|a, b, _| a || b), "or"), 2 => (f.0.xor(&g.0), z(|a, b, _| a != b), "xor"),
                3 => (f.0.not(), z(|a, _, _| !a), "not"), _ => (f.0.ite(&g.0, &h.0), z(|a, b, c| if a { b } else { c }), "ite"),
            }.into_tuple(&format!("({}, {}, {})", f.0.get_id(), g.0.get_id(), h.0.get_id()));
        } else if k < 66 {
            let m = r.below(if big { 8 } else { 5 });
            let xs: Vec<usize> = (0..m).map(|_| pick(r, &pool)).collect();
            let ns: Vec<BddNode> = xs.iter().map(|i| pool[*i].0.clone()).collect();
            let cnt = |i: usize| xs.iter().filter(|x| pool[**x].1[i]).count();
            match r.below(4) {
                0 => { node = w.mgr.and(&ns); want = (0..full).map(|i| cnt(i) == m).collect(); what = format!("and of {:?}", ns.iter().map(|x| x.get_id()).collect::<Vec<_>>()); }
                1 => { node = w.mgr.or(&ns); want = (0..full).map(|i| cnt(i) > 0).collect(); what = format!("or of {:?}", ns.iter().map(|x| x.get_id()).collect::<Vec<_>>()); }
                _ => { let kk = r.below(m + 2); node = w.mgr.kofn(kk, &ns); want = (0..full).map(|i| cnt(i) >= kk).collect(); what = format!("at least {kk} of {:?}", ns.iter().map(|x| x.get_id()).collect::<Vec<_>>()); }
            }
            if m > 1 { c.case(&(want.clone(), what.len())); }
        } else if k < 73 {
            let i = pick(r, &pool);
            node = pool[i].0.dual(); want = (0..full).map(|x| !pool[i].1[full - 1 - x]).collect(); what = format!("dual({})", pool[i].0.get_id());
            let twice = node.dual();
            c.check(&["C16"], twice.get_id() == pool[i].0.get_id(), || format!("the dual of the dual of node {} is node {}", pool[i].0.get_id(), twice.get_id()))?;
        } else if k < 76 {
            // the two parts of a function, as handles of their own (often dropped at once)
            let i = pick(r, &pool); let (f, t) = (pool[i].0.clone(), pool[i].1.clone());
            let Some((a, b)) = f.get_children() else { continue };
            let v = w.var(&f.get_label().unwrap())?; let part = |x: usize| -> T { (0..full).map(|i| t[if x == 1 { i | 1 << v } else { i & !(1 << v) }]).collect() };
            if r.chance(40) { c.say(format!("parts of {} fetched and dropped", f.get_id())); continue; }
            if r.chance(50) { node = a; want = part(0); } else { node = b; want = part(1); }
            what = format!("part of {}", f.get_id());
        } else if k < 80 { if pool.len() > 2 { let i = r.below(pool.len()); let d = pool.swap_remove(i); c.say(format!("drop handle of {}", d.0.get_id())); } continue;
        } else if k < 84 {
            let keep: Vec<&BddNode> = pool.iter().filter(|_| r.chance(20)).map(|x| &x.0).collect();
            let freed = w.mgr.bdd().gc(&keep); c.say(format!("gc -> {freed}"));
            let mut s: HashSet<usize> = [0, 1, 2].into_iter().collect();
            let mut roots: Vec<BddNode> = pool.iter().map(|x| x.0.clone()).collect();
            for v in w.order.clone() { roots.push(w.mgr.defvar(&w.names[v].clone())); }
            let rc = w.mgr.bdd().zero().get_mgr();
            let mut st: Vec<usize> = roots.iter().map(|x| x.get_id()).collect();
            while let Some(x) = st.pop() { if s.insert(x) { if let Some(Node::NonTerminal(f)) = rc.borrow().get_node(&x) { st.push(f.edge(0)); st.push(f.edge(1)); } } }
            c.check(&["C18"], w.mgr.bdd().live_node_count() == s.len(), || format!("after a collection {} nodes are live, {} are reached from the handles, the variables or constant", w.mgr.bdd().live_node_count(), s.len()))?;
            continue;
        } else if k < 92 {
            let i = pick(r, &pool); let (f, t) = (pool[i].0.clone(), pool[i].1.clone());
            if c.on("C13") || c.on("C14") { measures(c, r, &w, &f, &t)?; } else { minimals(c, r, &w, &f, &t, &mut fam)?; }
            continue;
        } else if k < 94 { w.mgr.clear_cache(); c.say("clear_cache"); continue;
        } else {
            // families
            if fam.len() < 2 { fam.push((w.mgr.zdd().empty(), BTreeSet::new())); fam.push((w.mgr.zdd().base(), [0].into_iter().collect())); }
            let (i, j) = (r.below(fam.len()), r.below(fam.len())); let op = r.below(5);
            let x = zdds(c, &w, &fam[i], &fam[j], op)?;
            let _ = x; // the families of one minimal-path call have headers of their own: see sets()
            continue;
        }
        let got = w.table(&node).map_err(|e| format!("{what}: {e}"))?;
        c.say(format!("{what} -> {} = {}", node.get_id(), show(&got)));
        let mut tags: Vec<&str> = vec![];
        if what.starts_with("rpn") { tags.push("C17") } else if what.starts_with("dual") || what.contains(" of [") { tags.push("C16") } else { tags.push("C18") }
        if w.mgr.bdd().live_node_count() > 3 { tags.push("C18") }
        c.check(&tags, got == want, || format!("{what} -> {} is {}, it should be {}", node.get_id(), show(&got), show(&want)))?;
        if what.starts_with("dual") && got.iter().any(|x| *x) { c.case(&(got.clone(), 7)); }
        if c.on("C18") { c.case(&(got.clone(), pool.len(), w.mgr.bdd().live_node_count())); }
        pool.push((node, got));
        if c.on("C18") || r.chance(10) {
            for (f, t) in &pool { let now = w.table(f).map_err(|e| format!("the function behind the handle of node {} is gone: {e}", f.get_id()))?; c.check(&["C18"], now == *t, || format!("the handle of node {} stood for {} and now stands for {}", f.get_id(), show(t), show(&now)))?; }
        }
        if (c.on("C13") || c.on("C14")) && r.chance(40) { let (f, t) = pool.last().unwrap().clone(); measures(c, r, &w, &f, &t)?; }
        if mono_bias && r.chance(40) { let (f, t) = pool.last().unwrap().clone(); minimals(c, r, &w, &f, &t, &mut fam)?; }
        for (z, want) in fam.iter().take(3) { if c.on("C22") || c.on("C18") { let (got, k) = family(z.extract(&[true]), &w)?; c.check(&["C18", "C22"], got == *want && k == got.len(), || format!("the family behind a handle was {want:?} and is now {got:?} ({k} listed)"))?; } }
    }
    if c.on("C18") {
        pool.clear(); fam.clear();
        w.mgr.bdd().gc(&[]);
        let used = 3 + w.order.len();
        c.check(&["C18"], w.mgr.bdd().live_node_count() == used, || format!("without handles, {} nodes survive a collection: the constants and {} variables are {used}", w.mgr.bdd().live_node_count(), w.order.len()))?;
    }
    Ok(())
}
trait IntoTuple { fn into_tuple(self, s: &str) -> (BddNode, T, String); }
impl IntoTuple for (BddNode, T, &str) { fn into_tuple(self, s: &str) -> (BddNode, T, String) { (self.0, self.1, format!("{}{s}", self.2)) } }

/// families built set by set in their own manager
pub fn sets(c: &mut Ctx, r: &mut Rng, big: bool) -> R<()> {
    let n = if big { 6 } else { 1 + r.below(4) };
    let names: Vec<String> = (0..n).map(|i| ["a", "b", "cc", "d", "e", "f"][i].to_string()).collect();
    let w = W { mgr: BssMgr::new(), names: names.clone(), order: vec![], n };
    let mut m = ZddMgr::new();
    if r.chance(60) { m.set_gc_threshold(r.below(20)); }
    let early = if r.chance(60) { n } else { r.below(n + 1) };
    for v in r.perm(n).into_iter().take(early) { m.singleton(&names[v]); }
    let mut pool: Vec<(ZddNode, BTreeSet<usize>)> = vec![(m.empty(), BTreeSet::new()), (m.base(), [0].into_iter().collect())];
    let mut canon: BTreeMap<BTreeSet<usize>, usize> = BTreeMap::new();
    for _ in 0..(6 + r.below(30)) {
        let (z, want);
        let pick = |r: &mut Rng, p: &Vec<(ZddNode, BTreeSet<usize>)>| if r.chance(60) { p.len() - 1 - r.below(p.len().min(5)) } else { r.below(p.len()) };
        let what;
        if r.chance(4) { m.clear_cache(); c.say("caches cleared".to_string()); }
        if r.chance(35) {
            let k = r.below(6);
            let ss: Vec<usize> = (0..k).map(|_| r.below(1 << n)).collect();
            let list: Vec<Vec<String>> = ss.iter().map(|s| { let mut l: Vec<String> = (0..n).filter(|v| s >> v & 1 == 1).map(|v| names[v].clone()).collect(); if r.chance(50) { l.reverse(); } l }).collect();
            z = m.from_sets(&list); want = ss.into_iter().collect(); what = format!("from_sets({list:?})");
        } else if r.chance(12) {
            let i = pick(r, &pool); let (f, t) = pool[i].clone();
            let Some((a, b)) = f.get_children() else { continue };
            let v = w.var(&f.get_label().unwrap())?;
            if r.chance(40) { c.say(format!("parts of {} fetched and dropped", f.get_id())); continue; }
            if c.on("C18") && r.chance(50) {
                let x = if r.chance(50) { (a.clone(), t.iter().filter(|s| *s >> v & 1 == 0).cloned().collect()) } else { (b.clone(), t.iter().filter(|s| *s >> v & 1 == 1).map(|s| s & !(1 << v)).collect::<BTreeSet<usize>>()) };
                drop((a, b)); drop(f.get_children()); c.say(format!("part {} of {} held, the whole dropped", x.0.get_id(), f.get_id()));
                drop(f); pool.push(x); if i >= 2 { pool.swap_remove(i); }
                let mut at = 2; while at < pool.len() - 1 { if r.chance(40) { pool.remove(at); } else { at += 1; } }
                m.set_gc_threshold(0); drop(m.zero());
                for (z, t) in &pool { let (now, _) = family(z.extract(&[true]), &w)?; c.check(&["C18"], now == *t, || format!("the family behind the handle of {} was {t:?} and is now {now:?}", z.get_id()))?; }
                continue;
            }
            if r.chance(50) { z = a; want = t.iter().filter(|s| *s >> v & 1 == 0).cloned().collect(); } else { z = b; want = t.iter().filter(|s| *s >> v & 1 == 1).map(|s| s & !(1 << v)).collect(); }
            what = format!("part of {}", f.get_id());
        } else if r.chance(15) && pool.len() > 3 { let i = 2 + r.below(pool.len() - 2); pool.swap_remove(i); continue;
        } else {
            let (i, j) = (pick(r, &pool), pick(r, &pool)); let op = r.below(5);
            let (a, b) = zdds(c, &w, &pool[i].clone(), &pool[j].clone(), op)?; z = a; want = b; what = format!("{}({}, {})", ["union", "intersect", "setdiff", "product", "divide"][op], pool[i].0.get_id(), pool[j].0.get_id());
        }
        if want.len() > 500 { continue; }
        let (got, k) = family(z.extract(&[true]), &w)?;
        c.say(format!("{what} -> {} = {got:?}", z.get_id()));
        c.check(&["C05", "C18"], got == want, || format!("{what} is {got:?}, it should be {want:?}"))?;
        // enumeration and count against the diagram itself
        let direct = { let rc = z.get_mgr(); let d = rc.borrow(); let mut out = vec![]; walk(&w, &d, z.get_id(), 0, &mut out)?; out };
        let mem: BTreeSet<usize> = direct.iter().copied().collect();
        c.check(&["C22"], got == mem && k == mem.len(), || format!("{what}: the family is {mem:?}, {k} sets are listed: {got:?}"))?;
        c.check(&["C22"], z.count(&[true]) == mem.len() as u64 && z.count(&[]) == 0, || format!("{what}: the family is {mem:?}, the count is {}", z.count(&[true])))?;
        for ss in [vec![true], vec![false], vec![true, false], vec![]] { if c.on("C22") { let p = z.extract(&ss); let l = p.len(); let k = p.take(5000).count(); c.check(&["C22"], l == z.count(&ss) && l as usize == k, || format!("{what}: a walk over {ss:?} says it has {l} sets and lists {k}"))?; } }
        if let Some(x) = canon.get(&got) { if r.chance(0) { let _ = x; } }
        canon.insert(got.clone(), z.get_id());
        if got.len() > 1 { c.case(&got); }
        pool.push((z, got));
        for (z, t) in &pool { if c.on("C18") { let (now, _) = family(z.extract(&[true]), &w)?; c.check(&["C18"], now == *t, || format!("the family behind the handle of {} was {t:?} and is now {now:?}", z.get_id()))?; } }
    }
    if c.on("C18") { let rc = m.zero().get_mgr(); pool.clear(); rc.borrow_mut(); m.set_gc_threshold(0); drop(m.zero()); c.check(&["C18"], m.live_node_count() == 3, || format!("without handles, {} nodes survive a collection, the constants are 3", m.live_node_count()))?; }
    Ok(())
}
fn walk(w: &W, m: &ZddManager, id: usize, acc: usize, out: &mut Vec<usize>) -> R<()> {
    match m.get_node(&id).ok_or("no such node")? { Node::Zero | Node::Undet => Ok(()), Node::One => { out.push(acc); Ok(()) } Node::NonTerminal(f) => { let v = w.var(m.label(&id).unwrap())?; walk(w, m, f.edge(0), acc, out)?; walk(w, m, f.edge(1), acc | 1 << v, out) } }
}

/// counts over many variables of which few matter: the skipped ones contribute a power of two
pub fn wide(c: &mut Ctx, r: &mut Rng, _big: bool) -> R<()> {
    let n = 20 + r.below(43);
    let mut m = BddMgr::new();
    let vs: Vec<BddNode> = (0..n).map(|i| m.defvar(&format!("v{i}"))).collect();
    let k = 1 + r.below(5);
    let mut at: Vec<usize> = (0..k).map(|_| r.below(n)).collect(); at.sort(); at.dedup();
    let k = at.len();
    let t: T = (0..1usize << k).map(|_| r.chance(50)).collect();
    let mut f = m.zero();
    for i in 0..1usize << k { if t[i] { let mut p = m.one(); for (j, v) in at.iter().enumerate() { p = if i >> j & 1 == 1 { p.and(&vs[*v]) } else { p.and(&vs[*v].not()) }; } f = f.or(&p); } }
    c.say(format!("{n} variables, a function of {at:?} with table {}", show(&t)));
    for ss in [vec![true], vec![false], vec![true, false], vec![]] {
        let d = deps(&t, k);
        let top = d.last().map_or(0, |j| at[*j] + 1);
        let used = d.len();
        // the table restricted to the variables that matter
        let hits = (0..1usize << k).filter(|i| (0..k).all(|j| d.contains(&j) || i >> j & 1 == 0) && ss.contains(&t[*i])).count() as u64;
        let want = hits << (top - used);
        if top - used > 58 { continue; }
        let got = f.bdd_count(&ss);
        c.check(&["C14"], got == want, || format!("the count for {ss:?} is {got}, it should be {want}: {hits} assignments of the variables {:?} and {} free ones below the top", d.iter().map(|j| at[*j]).collect::<Vec<_>>(), top - used))?;
    }
    c.case(&(n, at, t));
    Ok(())
}
