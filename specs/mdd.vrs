//@include head.vrs
//@include dag.vrs
//@stubs on
//@include cache_items.vrs
//@stubs off
//@include mdd_items.vrs
//@include mdd_fns.vrs
//@include tail.vrs
