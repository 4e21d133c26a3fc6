//@item common compute_cache::EMPTY
//@item common compute_cache::INIT_BITS
//@item common compute_cache::MAX_BITS
//@item common ComputeCache
//@include cache_fns.vrs
