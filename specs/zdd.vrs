//@include head.vrs
//@include dag.vrs
//@stubs on
//@include bdd_items.vrs
//@stubs off
//@include zdd_fns.vrs
//@include tail.vrs
