//@typemap V Num
//@typemap Value Num
//@typemap Self::Value Num
//@typemap Node Node
//@typemap TerminalNumber TerminalNumber
//@typemap MtMddManager MtMddManager
//@typemap MtMdd2Manager MtMdd2Manager
//@typemap ZmddManager ZmddManager
//@include head.vrs
//@include num.vrs
broadcast use {numax::axiom_num, numax::axiom_num_eq};
//@include dag.vrs
//@stubs on
//@include cache_items.vrs
//@include mdd_items.vrs
pub mod mdd { use super::*;
//@include mdd_fns.vrs
}
pub mod mtmdd { use super::*;
//@include mtmdd_fns.vrs
}
//@include mtmdd2_fns.vrs
}
//@include msol_lib.vrs
//@include msol_fns.vrs
//@include lab.vrs
pub mod zmdd { use super::*;
//@include zmdd_fns.vrs
}
//@stubs off
//@include mset_fns.vrs
//@include tail.vrs
