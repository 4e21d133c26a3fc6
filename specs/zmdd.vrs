//@typemap V Num
//@typemap Value Num
//@typemap Self::Value Num
//@typemap Node Node
//@typemap TerminalNumber TerminalNumber
//@typemap ZmddManager ZmddManager
//@include head.vrs
//@include num.vrs
broadcast use {numax::axiom_num, numax::axiom_num_eq};
//@include dag.vrs
//@include lab.vrs
//@stubs on
//@include cache_items.vrs
//@include mdd_items.vrs
//@stubs off
//@include zmdd_fns.vrs
//@include tail.vrs
