// ---------------------------------------------------------------- families of sets held as zero-suppressed diagrams
pub type S = ISet<int>;
// s is a member of the family at id; an element not mentioned on the path must be absent
#[verifier::opaque]
pub open spec fn mem(d: D, id: int, s: S) -> bool
    decreases (if lv(d, id) >= 0 { lv(d, id) } else { 0 })
{
    match d[id] {
        SN::T(v) => v == 1 && s =~= ISet::empty(),
        SN::N { level, kids } => {
            let k = if s.contains(level) { kids[1] } else { kids[0] };
            if 0 <= lv(d, k) < lv(d, id) { mem(d, k, if s.contains(level) { s.remove(level) } else { s }) } else { false }
        }
    }
}
// no undetermined part
#[verifier::opaque]
pub open spec fn pure(d: D, id: int) -> bool
    decreases (if lv(d, id) >= 0 { lv(d, id) } else { 0 })
{
    match d[id] {
        SN::T(v) => v == 0 || v == 1,
        SN::N { level, kids } => if 0 <= lv(d, kids[0]) < lv(d, id) && 0 <= lv(d, kids[1]) < lv(d, id) { pure(d, kids[0]) && pure(d, kids[1]) } else { false },
    }
}
