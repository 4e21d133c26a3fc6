//@typemap V Num
//@typemap Value Num
//@typemap Self::Value Num
//@typemap T Rn
//@typemap Node Node
//@typemap TerminalNumber TerminalNumber
//@typemap MtMddManager MtMddManager
//@typemap MtMdd2Manager MtMdd2Manager
//@typemap MddNode MddNode
//@typemap MddMgr MddMgr
//@typemap MddPath MddPath
//@world mss mdd mdd_path
//@cell MtMdd2Manager mdd
//@cell GcState gc
//@include head.vrs
//@include num.vrs
broadcast use {numax::axiom_num, numax::axiom_num_eq};
//@include strmap.vrs
//@include dag.vrs
//@stubs on
//@include cache_items.vrs
//@include mdd_items.vrs
pub mod mdd { use super::*;
//@include mdd_fns.vrs
}
pub mod mtmdd { use super::*;
//@include mtmdd_fns.vrs
}
//@include mtmdd2_fns.vrs
}
//@include mcnt_fns.vrs
//@include mwrap_fns.vrs
//@stubs off
pub mod mp { use super::*;
use super::mc::*;
use super::mh::*;
broadcast use {axiom_rn, axiom_rn_eq, numax::axiom_num, numax::axiom_num_eq};
//@include paths.vrs
//@include mpath_fns.vrs
}
//@include tail.vrs
