// -------- ComputeCache: the lossy memo table never answers with anything that was not stored
//@include head.vrs
//@include cache_items.vrs
//@include tail.vrs
