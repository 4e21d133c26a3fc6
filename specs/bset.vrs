//@include head.vrs
//@include dag.vrs
//@stubs on
//@include cache_items.vrs
//@include bdd_items.vrs
//@include bdd_fns.vrs
//@include zdd_fns.vrs
//@stubs off
//@include bmgr.vrs
//@include bset_fns.vrs
//@include tail.vrs
