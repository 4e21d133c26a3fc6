//! The lossy memo table on its own, against a plain map.
use crate::ctx::*;
use crate::rng::Rng;
use common::prelude::*;
use std::collections::HashMap;

pub fn history(c: &mut Ctx, r: &mut Rng, big: bool) -> R<()> {
    let mut t = ComputeCache::new();
    let mut model: HashMap<(u32, u32, u32), u32> = HashMap::new(); // last stored value; None = must be absent
    let dom = [6u32, 40, 5000, 1 << 20][r.below(4)];
    let n = if big { 60000 } else { 3000 };
    let key = |r: &mut Rng| (r.below(if dom > 100 { 8 } else { dom as usize }) as u32, (r.next() % dom as u64) as u32, (r.next() % dom as u64) as u32);
    c.say(format!("{n} steps over ids below {dom}"));
    for i in 0..n {
        let k = key(r);
        match r.below(if big { 4000 } else { 400 }) {
            0 => { t.clear(); model.clear(); c.say(format!("{i}: clear")); }
            1 => {
                let live: Vec<bool> = (0..dom.max(8)).map(|_| r.chance(70)).collect();
                let three = r.chance(50);
                if three { t.retain_live3(&live) } else { t.retain_live(&live) }
                model.retain(|k, v| live[k.1 as usize] && live[k.2 as usize] && live[*v as usize] && (!three || live[k.0 as usize]));
                c.say(format!("{i}: retain_live{}", if three { "3" } else { "" }));
            }
            x if x % 2 == 0 => { let v = (r.next() % dom as u64) as u32; t.put(k.0, k.1, k.2, v); model.insert(k, v);
                c.check(&["C04"], t.get(k.0, k.1, k.2) == Some(v), || format!("stored {v} under {k:?}, read back {:?}", t.get(k.0, k.1, k.2)))?; c.case(&(k, v)); }
            _ => {
                let k = if r.chance(70) && !model.is_empty() && dom < 100 { k } else { k };
                let g = t.get(k.0, k.1, k.2);
                c.check(&["C04"], g.is_none() || g == model.get(&k).copied(), || format!("step {i}: {k:?} answers {g:?}, what was stored last and not dropped is {:?}", model.get(&k)))?;
            }
        }
    }
    for (k, v) in &model { let g = t.get(k.0, k.1, k.2); c.check(&["C04"], g.is_none() || g == Some(*v), || format!("{k:?} answers {g:?} instead of {v}"))?; }
    Ok(())
}
