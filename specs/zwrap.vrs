//@world bss zdd zdd_path
//@cell ZddManager zdd
//@cell GcState gc
//@include head.vrs
//@include strmap.vrs
//@include dag.vrs
//@stubs on
//@include cache_items.vrs
//@include bdd_items.vrs
//@include zdd_fns.vrs
//@stubs off
//@include zwrap_fns.vrs
//@include tail.vrs
