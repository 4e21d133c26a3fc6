//@world bss bdd bdd_path
//@cell BddManager bdd
//@cell GcState gc
//@include head.vrs
//@include strmap.vrs
//@include dag.vrs
//@stubs on
//@include cache_items.vrs
//@include bdd_items.vrs
//@include bdd_fns.vrs
//@include bsol_fns.vrs
//@stubs off
//@include bmgr.vrs
//@stubs on
//@include bwrap_fns.vrs
//@include bcnt_fns.vrs
//@stubs off
//@include paths.vrs
//@include bpath_fns.vrs
//@include tail.vrs
