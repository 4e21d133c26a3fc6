//@include head.vrs
//@include dag.vrs
//@stubs on
//@include cache_items.vrs
//@include bdd_items.vrs
//@include bdd_fns.vrs
//@stubs off
//@include bsol_fns.vrs
//@include tail.vrs
