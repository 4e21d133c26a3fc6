//@include head.vrs
//@include dag.vrs
//@stubs on
//@include cache_items.vrs
//@stubs off
//@include bdd_items.vrs
//@include bdd_fns.vrs
//@include tail.vrs
