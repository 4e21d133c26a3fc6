//@include head.vrs
//@include dag.vrs
//@stubs on
//@include cache_items.vrs
//@include bdd_items.vrs
//@include bdd_fns.vrs
//@stubs off
//@include bmgr.vrs
//@include bcnt_fns.vrs
//@include imp.vrs
//@include bprob_fns.vrs
//@include bbir_fns.vrs
//@include tail.vrs
