//@world bss bdd bdd_path
//@cell BddManager bdd
//@cell GcState gc
//@include head.vrs
//@include strmap.vrs
//@include strs.vrs
//@include dag.vrs
//@stubs on
//@include cache_items.vrs
//@include bdd_items.vrs
//@include bdd_fns.vrs
//@include bsol_fns.vrs
//@stubs off
//@include bmgr.vrs
//@stubs on
//@include bwrap_fns.vrs
//@stubs off
//@include brpn_fns.vrs
//@include tail.vrs
