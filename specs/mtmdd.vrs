//@typemap V Num
//@typemap Value Num
//@typemap Self::Value Num
//@typemap Node Node
//@typemap TerminalNumber TerminalNumber
//@typemap MtMddManager MtMddManager
//@include head.vrs
//@include num.vrs
broadcast use {numax::axiom_num, numax::axiom_num_eq};
//@include dag.vrs
//@stubs on
//@include cache_items.vrs
//@include mdd_items.vrs
//@stubs off
//@include mtmdd_fns.vrs
//@include tail.vrs
