use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};

/// What a case records: its history, and what it saw.
pub struct Ctx {
    pub prop: String,
    pub log: Vec<String>,
    pub seen: HashSet<u64>,
    pub checks: u64,
    pub samples: Vec<String>,
}
pub type R<T> = Result<T, String>;
impl Ctx {
    pub fn new(prop: &str) -> Self { Ctx { prop: prop.into(), log: vec![], seen: HashSet::new(), checks: 0, samples: vec![] } }
    pub fn say(&mut self, s: impl Into<String>) {
        if self.log.len() < 4000 { self.log.push(s.into()) }
        crate::LAST.with(|l| { let mut l = l.borrow_mut(); if l.len() < 4000 { if let Some(x) = self.log.last() { l.push(x.clone()) } } });
    }
    /// Report when one of the tags is the property being checked.
    pub fn check(&mut self, tags: &[&str], ok: bool, msg: impl FnOnce() -> String) -> R<()> {
        if tags.iter().any(|t| *t == self.prop) {
            self.checks += 1;
            if !ok { return Err(msg()); }
        }
        Ok(())
    }
    pub fn on(&self, tag: &str) -> bool { self.prop == tag }
    /// A distinct, non-trivial case.
    pub fn case<H: Hash>(&mut self, h: &H) { let mut s = DefaultHasher::new(); h.hash(&mut s); self.seen.insert(s.finish()); }
}
