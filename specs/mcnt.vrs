//@typemap V Num
//@typemap Value Num
//@typemap Self::Value Num
//@typemap T Rn
//@typemap Node Node
//@typemap TerminalNumber TerminalNumber
//@typemap MtMddManager MtMddManager
//@typemap MtMdd2Manager MtMdd2Manager
//@include head.vrs
//@include num.vrs
broadcast use {numax::axiom_num, numax::axiom_num_eq};
//@include dag.vrs
//@stubs on
//@include cache_items.vrs
//@include mdd_items.vrs
pub mod mdd { use super::*;
//@include mdd_fns.vrs
}
pub mod mtmdd { use super::*;
//@include mtmdd_fns.vrs
}
//@include mtmdd2_fns.vrs
}
//@stubs off
//@include mcnt_fns.vrs
//@include tail.vrs
