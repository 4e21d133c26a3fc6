//@world bss zdd zdd_path
//@cell ZddManager zdd
//@cell GcState gc
//@include head.vrs
//@include strmap.vrs
//@include dag.vrs
//@stubs on
//@include cache_items.vrs
//@include bdd_items.vrs
//@include bdd_fns.vrs
//@include zdd_fns.vrs
//@stubs off
//@include bmgr.vrs
//@stubs on
//@include bset_fns.vrs
//@include zwrap_fns.vrs
//@stubs off
//@include zpath_fns.vrs
//@include tail.vrs
