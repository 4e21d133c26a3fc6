"""What each property rests on: units (verus) with the functions whose obligations carry it, and the bounded part."""
TRUSTED = [
    'Verus 0.2026.09.13 and Z3', 'the extractor vx (syntactic rewriting listed in DESIGN.md)',
    'std HashMap/HashSet behave as maps/sets of their keys (specs/prelude.vrs)', 'std::mem::replace, usize::trailing_zeros, vec![x; n] as specified in specs/prelude.vrs',
    'panics of unreachable!/format! paths: unreachable!() is an obligation, the text of messages is not modelled',
]
BOUNDED_RULE = 'random histories of public operations on the real code compared with truth tables / explicit families / numeric evaluation; a case counts as distinct by the hash of the functions it built'
CAP = 'fewer than u32::MAX nodes are allocated (CAPACITY assumption in new_nonterminal/new_terminal)'
HDR = 'levels below usize::MAX, at most u32::MAX headers, at least one state per variable, one number of states per level (create_header precondition)'
NUM = 'values are mathematical integers with truncating division: + - * of the value type do not overflow (machine arithmetic treated as mathematical)'
NUMT = 'specs/num.vrs: the value type V behaves as the integers'
HANDLES = ['shared cells are erased (vx world erasure): no RefCell is borrowed twice, managers outlive their handles, handles are used with their own manager', 'fewer than u32::MAX handles of one node', 'handles stored in containers are dropped by the container (not modelled)']
UNITS = {
    'cache': {},
    'bdd': dict(assumptions=[CAP, HDR]),
    'zdd': dict(assumptions=[CAP, HDR]),
    'mdd': dict(assumptions=[CAP, HDR]),
    'mtmdd': dict(assumptions=[CAP, HDR, NUM], trusted=[NUMT]),
    'zmdd': dict(assumptions=[CAP, HDR], trusted=[NUMT]),
    'bsol': dict(assumptions=[CAP, HDR, 'k-of-n: (k+1)(n+1) fits in usize', 'one header per level (BddMgr::defvar gives every variable its own level)']),
    'bcnt': dict(assumptions=[CAP, HDR, 'one header per level, distinct component names (BddMgr::defvar)', 'counts and probabilities are computed in the reals: no overflow, no rounding (machine arithmetic treated as mathematical)'], trusted=['specs/real.vrs: the number type T behaves as the reals', 'specs/strmap.vrs: std HashMap keyed by strings or ids behaves as a map']),
    'mcnt': dict(assumptions=[CAP, HDR, NUM, 'one header per level, levels 0..n, at most u32::MAX states per variable, distinct component names (MddMgr::defvar)', 'the state probabilities of every component are given and sum to one', 'counts and probabilities are computed in the reals: no overflow, no rounding (machine arithmetic treated as mathematical)'], trusted=[NUMT, 'specs/real.vrs: the number type T behaves as the reals', 'specs/strmap.vrs: std HashMap keyed by strings or ids behaves as a map']),
    'msol': dict(assumptions=[CAP, HDR, NUM, 'one header per level (MddMgr::defvar gives every variable its own level)', 'the result family is handed to the set store by zmdd_convert, which is C22'], trusted=[NUMT]),
    'bset': dict(assumptions=[CAP, HDR, 'the conversion gets a set store of its own and makes one header per level (at most u32::MAX)', 'counts are computed in the reals: no overflow, no rounding'], trusted=['specs/real.vrs: the number type T behaves as the reals']),
    'mset': dict(assumptions=[CAP, HDR, NUM, 'headers of the set store agree with the source on the number of states per level', 'header count fits u32'], trusted=[NUMT]),
    'bwrap': dict(assumptions=[CAP, HDR] + HANDLES),
    'zwrap': dict(assumptions=[CAP, HDR, 'element names over all lists fit u32'] + HANDLES, trusted=['specs/strmap.vrs: std HashMap keyed by strings behaves as a map']),
    'zpath': dict(assumptions=[CAP, HDR, 'every level has one name (theorem_names for a set manager; conversions copy level and name)', 'the store only grows while an iterator is in use', 'counts are computed in the reals: no overflow, no rounding'] + HANDLES, trusted=['specs/real.vrs: the number type T behaves as the reals']),
    'mzwrap': dict(assumptions=[CAP, HDR, NUM, 'headers of the set store agree with the source on the number of states per level', 'header count and root counts stay below u32::MAX'] + HANDLES, trusted=[NUMT]),
    'mmgr': dict(assumptions=[CAP, HDR, NUM, 'one header per level (MddMgr::defvar gives every variable its own level)', 'headers of the set store agree with the source on the number of states per level', 'header count and root counts stay below u32::MAX', 'MddMgr::get_varorder returns (its result is only carried along; bounded)'] + HANDLES, trusted=[NUMT, 'the variable order handed to the family (MddMgr::get_varorder): no contract, bounded only']),
    'mzpath': dict(assumptions=[CAP, HDR, 'every level has one name and number of states (conversions copy level, name and number of states)', 'the store only grows while an iterator is in use', 'a count asked for fits u64', 'variables of a reversed family have at least one state'] + HANDLES, trusted=[NUMT, 'specs/strmap.vrs: std HashMap keyed by strings behaves as a map']),
    'mwrap': dict(assumptions=[CAP, HDR, 'variables have at most i32::MAX states'] + HANDLES, trusted=['specs/strmap.vrs: std HashMap keyed by strings behaves as a map', 'specs/num.vrs: the value type behaves as the integers']),
    'mrpn': dict(assumptions=[CAP, HDR, 'headers and root counts stay below u32::MAX while the expression is read', 'undeclared variable names and conditionals with branches of two kinds are excluded (documented panics)'] + HANDLES, trusted=['specs/strs.vrs: std string slices (split_whitespace, ==, starts_with, ends_with, len, slicing, parse) work on the text as specified', 'specs/strmap.vrs: std HashMap keyed by strings behaves as a map', 'specs/num.vrs: the value type behaves as the integers']),
    'brpn': dict(assumptions=[CAP, HDR, 'headers and root counts stay below u32::MAX while the expression is read'] + HANDLES, trusted=['specs/strs.vrs: std string slices (split_whitespace, ==, starts_with, ends_with, len, slicing) work on the text as specified', 'specs/strmap.vrs: std HashMap keyed by strings behaves as a map']),
    'bpath': dict(assumptions=[CAP, HDR, 'one header per level, levels 0..n (BddMgr::defvar; theorem_packed)', 'the manager is not collected while a path iterator is in use', 'counts are computed in the reals: no overflow, no rounding'] + HANDLES, trusted=['specs/prelude.vrs: format!("..{}..", s) of a string places its text', 'specs/real.vrs: the number type T behaves as the reals']),
    'mpath': dict(assumptions=[CAP, HDR, NUM, 'one header per level, levels 0..n, at most u32::MAX states per variable, distinct component names (MddMgr::defvar; theorem_packed)', 'the manager is not collected while a path iterator is in use', 'counts are computed in the reals: no overflow, no rounding'] + HANDLES, trusted=[NUMT, 'specs/real.vrs: the number type T behaves as the reals', 'specs/strmap.vrs: std HashMap/HashSet behave as map and set']),
    'mtmdd2': dict(assumptions=[CAP, HDR, NUM, 'eq..gte, ite and the other two-sorted operations are given operands of the sorts they accept (ite panics on mixed sorts)'], trusted=[NUMT]),
}
WF = r'\.wf\(\)'
PUT = r'cache_put|\.has\(|caches_ok'
def store(M): return [rf'{M}::(create_node|new_nonterminal|new_terminal|value|new|create_header|clear_cache)$', (rf'{M}::', WF), r'theorem_', r'^lemma_(canonical|top|indep|eval_same|gc_post|zgc_post|created|arity|zcanonical|l\w+|suppressed)']
def ops(M, mod): return [rf'{mod}::{M}::', rf'{M}::(create_node|new_nonterminal|new_terminal|value|level|node_level|get_node|get_header|zero|one|undet|new)$', r'Node(Header)?::|NonTerminal\w*::|TerminalNumber::', r'^lemma_(eval|sel|ext|nt|created|node|tv|kids|l\w+|suppressed)']
def gc(M): return [rf'{M}::(gc|new_nonterminal|new_terminal|new)$', r'^lemma_(gc|zgc|mark|kept|path|free|reach|push|retained|mretained|vretained|drop|roots|caches)']
def cch(M): return [rf'{M}::([bv]?(ite_)?cache_get|[bv]?(ite_)?cache_put|clear_cache|gc)$', r'Operation::code', r'^lemma_(gc|zgc|caches)', (rf'{M}::', PUT)]
def MACC(M): return [rf'{M}::(label|level|get_node|get_header|size|headers)$', r'Node(Header)?::|NonTerminal\w*::|TerminalNumber::']
PROPS = {
    'C01': dict(title='BDD operations are pointwise', units={'bdd': ops('BddManager', 'bdd_ops'), 'bwrap': [r'BddNode::(and|or|xor|not|ite|rewrap)$', r'^lemma_(hand|keep|surv|fun|op)']}, bounds='up to 6 variables, big mode up to 13, histories up to 70 operations'),
    'C02': dict(title='BDD canonicity', units={'bdd': store('BddManager')}, bounds='up to 6 variables, big mode up to 13'),
    'C03': dict(title='BDD garbage collection', units={'bdd': gc('BddManager')}, bounds='up to 6 variables, big mode up to 13'),
    'C04': dict(title='computed tables', units={'cache': [r'.'], 'bdd': cch('BddManager'), 'zdd': cch('ZddManager'), 'mdd': cch('MddManager'), 'mtmdd': cch('MtMddManager'), 'mtmdd2': cch('MtMdd2Manager') + [(r'MtMdd2Manager::', PUT)], 'zmdd': cch('ZmddManager')}, bounds='tables up to 2^14 entries; forests of every kind with up to 6 variables'),
    'C05': dict(title='ZDD algebra', units={'zdd': ops('ZddManager', 'zdd_ops'), 'zwrap': [r'ZddNode::(union|intersect|setdiff|product|divide|rewrap)$', r'ZddMgr::(new|empty|base|zero|one|wrap|singleton|from_sets|clear_cache)$', r'^lemma_']}, bounds='up to 6 elements, big mode 9, histories up to 80 operations'),
    'C06': dict(title='ZDD canonicity and collection', units={'zdd': store('ZddManager') + gc('ZddManager')}, bounds='up to 6 elements, big mode 9'),
    'C07': dict(title='MDD operations are pointwise', units={'mdd': ops('MddManager', 'mdd_ops'), 'mwrap': [r'MddNode::(and|or|xor|not|rewrap)$']}, bounds='up to 5 variables of 2-4 states, big mode 6'),
    'C08': dict(title='MTMDD arithmetic is pointwise', units={'mtmdd': ops('MtMddManager', 'mtmdd_ops'), 'mwrap': [r'MddNode::(add|sub|mul|div|min|max|rewrap)$']}, bounds='up to 4 variables of 2-5 states, i64 values below 10^6'),
    'C09': dict(title='comparisons and conditionals of value diagrams are pointwise', units={'mtmdd2': ops('MtMdd2Manager', 'mtmdd2_ops') + [r'MtMdd2Manager::', r'^lemma_'], 'mdd': ops('MddManager', 'mdd_ops'), 'mtmdd': ops('MtMddManager', 'mtmdd_ops'), 'mwrap': [r'MddNode::(eq|ne|lt|le|gt|ge|ite|rewrap)$']}, bounds='up to 4 variables of 2-5 states, i64 values below 10^6'),
    'C10': dict(title='multi-valued canonicity', units={'mdd': store('MddManager'), 'mtmdd': store('MtMddManager'), 'zmdd': store('ZmddManager')}, bounds='up to 6 variables'),
    'C11': dict(title='multi-valued garbage collection', units={'mdd': gc('MddManager'), 'mtmdd': gc('MtMddManager'), 'mtmdd2': gc('MtMdd2Manager'), 'zmdd': gc('ZmddManager')}, bounds='up to 6 variables'),
    'C12': dict(title='zero-suppressed multi-valued operations act label by label', units={'zmdd': ops('ZmddManager', 'zmdd_ops') + [r'ZmddManager::set_baseline']}, bounds='up to 4 variables of 2-4 states'),
    'C13': dict(title='binary system probability and importance', units={'bdd': [r'BddManager::(label|level|get_node|get_header)$', r'NodeHeader::'], 'bcnt': [r'bdd_prob::', r'^lemma_']}, bounds='up to 6 components, probabilities in a prime field (exact)'),
    'C14': dict(title='binary system counts and paths', units={'bdd': [r'BddManager::(label|level|get_node|get_header)$', r'NodeHeader::'], 'bcnt': [r'bdd_count::', r'^lemma_(ws|eval|gap2|cnt|wsk|bn|b\w)', r'^theorem_'], 'bpath': [r'BddPath::', r'BddNode::bdd_(count|extract)$', r'^lemma_', r'^theorem_'], 'bwrap': [r'BddNode::(clone|get_level|get_id)$']}, bounds='up to 6 components'),
    'C15': dict(title='minimal path vectors', units={'bsol': [r'bdd_minsol::', r'^lemma_']}, bounds='up to 6 components'),
    'C16': dict(title='duals and k-of-n', units={'bsol': [r'bdd_dual::', r'bdd_kofn::', r'^lemma_', r'^theorem_']}, bounds='up to 6 components'),
    'C17': dict(title='reverse Polish expressions', units={'brpn': [r'BddMgr::rpn', r'^lemma_', r'^theorem_'], 'bwrap': [r'BddMgr::(defvar|wrap|new|clear_cache)$', r'BddNode::(clone|drop|new|from_weak)$', r'^lemma_(hand|room|base_all)'], 'bdd': [r'BddManager::(create_header|create_node|and|or|xor|not|ite|zero|one)$', r'bdd_ops::'], 'mrpn': [r'MddMgr::rpn', r'^lemma_', r'^theorem_'], 'mwrap': [r'MddMgr::(defvar|wrap|new|clear_cache|create_node|value|boolean)$', r'MddNode::(clone|drop|new|from_weak)$', r'^lemma_(hand|room|var|more|tval|keep)', r'^theorem_'], 'mtmdd2': [r'MtMdd2Manager::(create_header|create_node|value|zero|one|add|sub|mul|div|min|max|eq|neq|lt|lte|gt|gte|and|or|not|ite)$', r'mtmdd2_ops::']}, bounds='binary and multi-state expressions up to 60 tokens'),
    'C18': dict(title='handles survive automatic collection', units={'mzwrap': [r'Zmdd(Mgr|Node)::', r'maybe_gc', r'^lemma_'], 'zmdd': gc('ZmddManager') + [r'ZmddManager::live_node_count$'], 'zwrap': [r'Zdd(Mgr|Node)::', r'maybe_gc', r'^lemma_', r'^theorem_'], 'zdd': gc('ZddManager') + [r'ZddManager::live_node_count$'], 'bwrap': [r'Bdd(Mgr|Node)::', r'maybe_gc', r'^lemma_', r'^theorem_'], 'bdd': gc('BddManager') + [r'BddManager::live_node_count$'], 'mwrap': [r'Mdd(Mgr|Node)::', r'maybe_gc', r'^lemma_', r'^theorem_'], 'mtmdd2': gc('MtMdd2Manager') + [r'live_node_count$'], 'mdd': gc('MddManager') + [r'live_node_count$'], 'mtmdd': gc('MtMddManager') + [r'live_node_count$']}, bounds='histories up to 70 operations with small thresholds, binary, set and multi-state managers'),
    'C19': dict(title='multi-state probability and importance', units={'mcnt': [r'mdd_prob::', r'^lemma_'], 'mdd': MACC('MddManager'), 'mtmdd': MACC('MtMddManager'), 'mtmdd2': [r'MtMdd2Manager::(mdd|mtmdd)(_mut)?$']}, bounds='up to 4 components of 2-4 states'),
    'C20': dict(title='multi-state counts and paths', units={'mcnt': [r'mdd_count::', r'^lemma_(ws|wsk|eval|mtot|mcnt|lvmap|arity)'], 'mdd': MACC('MddManager'), 'mtmdd': MACC('MtMddManager'), 'mtmdd2': [r'MtMdd2Manager::(mdd|mtmdd)(_mut)?$', r'MtMdd2Manager::size$'], 'mpath': [r'MddPath::', r'MddNode::mdd_(count|extract)$', r'^lemma_', r'^theorem_'], 'mwrap': [r'MddNode::(clone|get_level|get_id|get_node)$']}, bounds='up to 4 components of 2-4 states'),
    'C21': dict(title='minimal path and cut vectors', units={'mmgr': [r'MssMgr::(minpath|mincut)$', r'mss::eval_extreme', r'^lemma_', r'^theorem_'], 'mzwrap': [r'ZmddMgr::(convert|convert_rev|wrap)$', r'ZmddNode::(new|from_weak)$', r'maybe_gc', r'^lemma_'], 'mset': [r'zmdd_convert::', r'^lemma_'], 'msol': [r'mdd_minsol::', r'^lemma_', r'^theorem_'], 'mtmdd2': [r'MtMdd2Manager::(mdd|mtmdd)(_mut)?$']}, bounds='up to 4 components of 2-4 states'),
    'C22': dict(title='family counts, enumeration and conversion', units={'bset': [r'zdd_convert::', r'zdd_count::', r'^lemma_', r'^theorem_'], 'zpath': [r'ZddPath::', r'ZddNode::(count|extract)$', r'^lemma_', r'^theorem_'], 'zwrap': [r'ZddNode::(clone|from_weak|get_id)$'], 'mset': [r'zmdd_convert::', r'^lemma_'], 'mzwrap': [r'ZmddMgr::(convert|convert_rev|new|wrap)$', r'ZmddNode::(intersect|setdiff|rewrap|new|clone|from_weak|get_id|is_cut)$', r'^lemma_'], 'mzpath': [r'zmdd_count', r'ZmddPath::', r'ZmddNode::(count|extract)$', r'^lemma_', r'^theorem_'], 'zdd': [r'ZddManager::(label|create_node|new_nonterminal|create_header|get_node|get_header|level|node_level|zero|one|undet)$'], 'zmdd': [r'ZmddManager::(create_node|new_nonterminal|create_header|set_baseline|value|get_node|get_header|level|label|size|intersect|setdiff)$']}, bounds='up to 6 elements; up to 4 components of 2-4 states'),
}
NOT_APPLICABLE = {}
