#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the two committed lists) from one table."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE); sys.dont_write_bytecode = True
from props import PROPS, NOT_APPLICABLE
L = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a['state'] = state
    if observe: a['observe_at'] = observe
    L.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))

p('C01', 'BDD operations compute the pointwise Boolean function',
  'For every pair of diagrams of a binary decision diagram forest and every assignment of the variables, the diagram returned by not, and, or, xor, imp, nand, nor, xnor evaluates to that connective applied to the values of the operands, and ite evaluates to the second or third operand according to the first. '
  'Where an operand is undetermined, negation is undetermined, and conjunction and disjunction give either the three-valued result or undetermined, never a wrong Boolean. The operands themselves keep their meaning.',
  ['inputs', 'histories'], 'all diagrams over any number of variables in any forest reached by any sequence of operations, all assignments, including forests with undetermined parts and warm result caches',
  'The result depends on recursion over two or three shared graphs, on the order of levels and on what earlier operations left in the caches; a test samples a few formulas in a fresh forest.',
  ['bddcore/src/bdd_ops.rs', 'bddcore/src/bdd.rs'], [('apply recursion and terminal cases', 'bddcore/src/bdd_ops.rs and/or/xor/not/ite'), ('node construction', 'bddcore/src/bdd.rs create_node')], observe='evaluation of the returned diagram')
p('C02', 'BDDs are canonical: equal functions are the same node',
  'In a binary decision diagram forest in which every variable has its own level, two live diagrams that agree on every assignment are the same node, so equality of functions is equality of identifiers. This holds after any sequence of operations, explicit node creations and collections.',
  ['histories', 'inputs'], 'all pairs of live nodes of all forests reached by any sequence of header creation, node creation, Boolean operations, cache clearing and garbage collection',
  'Canonicity is an invariant of the whole store (reduction plus a unique table in step with the node slots); a test sees a handful of pairs and not the reuse of freed slots.',
  ['bddcore/src/bdd.rs'], [('unique table and reduction rule', 'bddcore/src/bdd.rs create_node/new_nonterminal'), ('sweep of the unique table', 'bddcore/src/bdd.rs gc')], state='headers, nodes, unique table, free list')
p('C03', 'BDD garbage collection keeps exactly what the roots reach',
  'After a collection with any set of live roots, every root and everything reachable from it is still there and evaluates as before, the constants survive, every other slot is free and is what the call counts, and later operations on the survivors still give correct results even when they reuse freed slots.',
  ['histories', 'inputs'], 'all forests, all multisets of live roots, any interleaving of collections with operations',
  'The damage of a wrong collection shows only later, when a freed slot is reused while something still points to it; a test runs one or two collections.',
  ['bddcore/src/bdd.rs'], [('mark, sweep and free list', 'bddcore/src/bdd.rs gc'), ('slot reuse', 'bddcore/src/bdd.rs new_nonterminal')], state='nodes, free list, unique table, caches')
p('C04', 'Result caches never change an answer',
  'Looking up a result that was stored for one operation and operands returns either nothing or a value stored for exactly that operation and operands, whatever collisions, growth, clearing and collections happened in between. The answer of an operation is therefore the one it would give with empty caches, in every forest kind.',
  ['histories', 'inputs'], 'all sequences of lookups, insertions, growth, clearing and collections, all keys including colliding ones',
  'Collisions, growth and stale entries after a collection need specific key patterns and thousands of entries; wrong entries only matter when the same key is asked again.',
  ['common/src/compute_cache.rs', 'bddcore/src/bdd.rs', 'bddcore/src/bdd_ops.rs', 'bddcore/src/zdd.rs', 'mddcore/src/mdd.rs'], [('direct-mapped table', 'common/src/compute_cache.rs get/put/put_nogrow/grow/retain_live'), ('operation codes', 'bddcore/src/bdd_ops.rs Operation::code'), ('invalidation at collection', 'bddcore/src/bdd.rs gc')], state='cache slots')
p('C05', 'ZDD operations are the algebra of set families',
  'For every pair of families of sets held as zero-suppressed diagrams, intersection, union and difference are those of the families, product is the family of all unions of a member of one with a member of the other, and division is the family of sets disjoint from the divisor\'s members whose union with every one of them is in the dividend. The operands keep their meaning.',
  ['inputs', 'histories'], 'all families over any number of elements in any forest reached by any sequence of operations',
  'The recursions differ in which child is kept, dropped or recombined when levels differ; a slip shows only for families with a particular overlap pattern.',
  ['bddcore/src/zdd_ops.rs', 'bddcore/src/zdd.rs'], [('family recursions', 'bddcore/src/zdd_ops.rs intersect/union/setdiff/product/divide'), ('zero suppression', 'bddcore/src/zdd.rs create_node')], observe='the family enumerated from the returned diagram')
p('C06', 'ZDDs are canonical, before and after garbage collection',
  'In a zero-suppressed forest in which every element has its own level, two live diagrams that hold the same family are the same node. A collection keeps exactly what the given roots reach, with its meaning, and the forest stays canonical and correct afterwards.',
  ['histories', 'inputs'], 'all pairs of live nodes and all sets of roots in all forests reached by any sequence of operations and collections',
  'It is an invariant of the store over every history; wrong suppression or a stale table entry shows only when the same family is built by another route later.',
  ['bddcore/src/zdd.rs'], [('zero suppression and unique table', 'bddcore/src/zdd.rs create_node/new_nonterminal'), ('mark and sweep', 'bddcore/src/zdd.rs gc')], state='nodes, unique table, free list, cache')
p('C07', 'MDD operations compute the pointwise Boolean function',
  'For every pair of multi-valued decision diagrams with Boolean results and every assignment of the multi-valued variables, not, and, or, xor, imp, nand, nor, xnor, ite and replace evaluate to the connective applied to the operands\' values. Undetermined parts follow the same rules as in binary diagrams, and replace takes the second operand exactly where the first is undetermined.',
  ['inputs', 'histories'], 'all diagrams over any number of variables with any numbers of values, all assignments, any history',
  'The recursion pairs the children of nodes with different levels and arities; a test covers a few small functions.',
  ['mddcore/src/mdd_ops.rs', 'mddcore/src/mdd.rs'], [('n-ary apply recursion', 'mddcore/src/mdd_ops.rs'), ('node construction', 'mddcore/src/mdd.rs create_node')], observe='evaluation of the returned diagram')
p('C08', 'MTMDD arithmetic is pointwise, and division by zero is undetermined',
  'For every pair of value-carrying decision diagrams and every assignment, add, sub, mul, div, rem, min and max evaluate to the integer operation on the operands\' values, undetermined absorbs, and division or remainder by zero is undetermined. replace gives the first operand where it is determined and the second elsewhere.',
  ['inputs', 'histories'], 'all diagrams over any variables and values for which the integer operation does not overflow, all assignments, any history',
  'Terminal short cuts, commutation of operands and the value table interact with the recursion; a test covers a few values.',
  ['mddcore/src/mtmdd_ops.rs', 'mddcore/src/mtmdd.rs'], [('apply recursion on values', 'mddcore/src/mtmdd_ops.rs'), ('value table', 'mddcore/src/mtmdd.rs value')], observe='evaluation of the returned diagram')
p('C09', 'Comparisons and conditionals of value diagrams are pointwise',
  'Comparing two value diagrams (equal, not equal, less, less or equal, greater, greater or equal) gives the Boolean diagram that is true exactly for the assignments where the relation holds between the two values, for assignments where both are determined. A conditional takes the second operand where the Boolean condition is true and the third where it is false, for Boolean and for value operands.',
  ['inputs', 'histories'], 'all Boolean and value diagrams of a two-sorted forest, all assignments, any history',
  'The results cross between two node stores with separate identifiers and three caches; equal identifiers of different sorts are easy to confuse, and the relations are built from each other.',
  ['mddcore/src/mtmdd2.rs', 'mddcore/src/mtmdd2_ops.rs'], [('comparison recursion', 'mddcore/src/mtmdd2_ops.rs veq/vlt'), ('conditional', 'mddcore/src/mtmdd2_ops.rs vif/vite/ite')], observe='evaluation of the returned diagrams')
p('C10', 'Multi-valued diagrams are canonical',
  'In Boolean, value and zero-suppressed multi-valued forests in which every variable has its own level, two live diagrams that denote the same function (or family) are the same node, and equal values share one terminal. This holds after any sequence of operations, node creations and collections.',
  ['histories', 'inputs'], 'all pairs of live nodes of all forests of the three kinds reached by any history',
  'An invariant of the whole store over all histories; wrong reduction, table keys or slot reuse show only when the same function is built by a different route.',
  ['mddcore/src/mdd.rs', 'mddcore/src/mtmdd.rs', 'mddcore/src/zmdd.rs'], [('reduction and unique tables', 'create_node/new_nonterminal/value of mdd.rs, mtmdd.rs, zmdd.rs')], state='nodes, unique tables, value table, free list')
p('C11', 'Multi-valued garbage collection keeps exactly what the roots reach',
  'In the multi-valued forests a collection with any live roots keeps every root and what it reaches with unchanged meaning, keeps the constants, frees every other slot including unused values, and leaves a forest in which further operations are correct although slots are reused.',
  ['histories', 'inputs'], 'all forests, all sets of live roots, any interleaving with operations',
  'A wrong mark or a stale table entry is silent until a freed slot is reused by a later operation.',
  ['mddcore/src/mdd.rs', 'mddcore/src/mtmdd.rs', 'mddcore/src/mtmdd2.rs', 'mddcore/src/zmdd.rs'], [('mark, sweep, free list', 'gc of mdd.rs, mtmdd.rs, mtmdd2.rs, zmdd.rs')], state='nodes, free list, unique, value and result tables')
p('C12', 'Zero-suppressed multi-valued operations act label by label',
  'For every pair of zero-suppressed multi-valued diagrams, seen as partial maps from state vectors to labels, intersection keeps the vectors on which both carry the same label and difference keeps those of the first on which the second carries another label or none. Every operation leaves its operands unchanged.',
  ['inputs', 'histories'], 'all diagrams over any variables and labels, any history',
  'Suppressed levels stand for one particular value, so the recursion must treat operands whose levels differ asymmetrically; few tests have such operands.',
  ['mddcore/src/zmdd.rs', 'mddcore/src/zmdd_ops.rs'], [('label-wise recursion', 'mddcore/src/zmdd_ops.rs'), ('suppression', 'mddcore/src/zmdd.rs create_node')], observe='enumeration of the returned diagram')
p('C13', 'Binary system probability and Birnbaum importance are exact sums',
  'For independent components with given probabilities (a component without one counts as probability zero), the probability of the top event is the sum, over all component states in which the fully determined structure function takes a wanted value, of the product of the component probabilities; the Birnbaum importance of every component the diagram depends on is the difference of that probability with the component fixed at one and at zero.',
  ['inputs', 'histories'], 'all structure functions over any number of components, all probability assignments (in real arithmetic), all sets of wanted values, constants included',
  'It is a sum over exponentially many states, computed in one pass with a memo over a shared diagram with skipped levels; tests compare a few numbers.',
  ['bss/src/bdd_prob.rs', 'bss/src/bdd.rs'], [('memoised expectation', 'bss/src/bdd_prob.rs'), ('importance', 'bss/src/bdd_prob.rs bmeas')], observe='returned probabilities')
p('C14', 'Binary system counts and enumerations agree with the structure function',
  'The count of a structure function for a set of wanted values is the number of assignments of the variables up to its top variable that give a wanted value. Enumerating its paths yields exactly these assignments, each once and each as a full assignment of those variables (variables the function skips included); a constant of wanted value has the one empty path.',
  ['inputs', 'histories'], 'all structure functions, all sets of wanted values, constants and skipped levels included',
  'Skipped levels must be weighted by powers of two and memo keys must not mix levels; tests count a few small functions.',
  ['bss/src/bdd_count.rs', 'bss/src/bdd_path.rs'], [('count with level gaps', 'bss/src/bdd_count.rs'), ('path iterator', 'bss/src/bdd_path.rs')], observe='returned counts and paths')
p('C15', 'Minimal path vectors are exactly the minimal true sets',
  'For a monotone structure function the minimal path family contains exactly the component sets that make the function true and have no proper subset that does. For a function that is not monotone no family is returned.',
  ['inputs', 'histories'], 'all structure functions over any number of components',
  'Minimality and completeness quantify over all subsets of components, and the algorithm subtracts families across skipped levels with a memo.',
  ['bss/src/bdd_minsol.rs', 'bss/src/bss.rs'], [('minimal solutions by without()', 'bss/src/bdd_minsol.rs'), ('monotonicity test', 'bss/src/bss.rs minpath')], observe='sets extracted from the family')
p('C16', 'Duals, minimal cuts and k-of-n structures mean what they say',
  'The dual of a structure function is the negation of the function at the complemented state, dualising twice gives the function back, and minimal cuts are the minimal paths of the dual. The n-ary and, or and k-of-n structures are true exactly when all, at least one, or at least k of their inputs are true.',
  ['inputs', 'histories'], 'all structure functions and all lists of inputs (also overlapping, constant or compound ones), all k',
  'They are statements about all states of arbitrarily many inputs, with a memo keyed by position and remaining count.',
  ['bss/src/bdd_dual.rs', 'bss/src/bdd_kofn.rs', 'bss/src/bdd.rs', 'bss/src/bss.rs'], [('dual recursion', 'bss/src/bdd_dual.rs'), ('k-of-n recursion', 'bss/src/bdd_kofn.rs'), ('mincut', 'bss/src/bss.rs')], observe='evaluation of the returned diagram')
p('C17', 'Reverse Polish expressions mean the expression they spell',
  'Parsing any well-formed reverse Polish expression over declared variables, constants, operators, save and load yields the structure function of that expression, for binary and for multi-state systems, however often variables and subexpressions repeat. An expression whose operators lack operands, that loads a name never saved, or that leaves other than one operand is reported as an error.',
  ['programs', 'histories'], 'all token sequences, any declaration order, repeated use of one manager',
  'Expressions are unbounded programs; operand order, constants and stack underflow each show only for particular shapes.',
  ['bss/src/bdd.rs', 'mss/src/mdd.rs'], [('stack evaluator', 'rpn of bss/src/bdd.rs and mss/src/mdd.rs')], observe='evaluation of the returned function, or the error')
p('C18', 'Handles keep their functions alive across automatic collection',
  'As long as a user holds a handle, the function behind it keeps its meaning through any later operations, automatic or explicit collections and drops of other handles, in binary and multi-state systems. When all handles are dropped, a collection leaves only the constants and the declared variables.',
  ['histories'], 'all interleavings of creating, cloning and dropping handles with operations that may trigger collection',
  'The automatic collection fires at thresholds in the middle of operations; a lost root is silent until a slot is reused.',
  ['bss/src/bdd.rs', 'bss/src/zdd.rs', 'mss/src/mdd.rs', 'mss/src/zmdd.rs'], [('root registry and thresholds', 'GcState/maybe_gc of bss/src/bdd.rs, mss/src/mdd.rs, zdd.rs, zmdd.rs')], state='root counts')
p('C19', 'Multi-state probabilities and importance are exact sums',
  "For independent multi-state components whose state probabilities sum to one, the probability that the structure function takes a wanted value is the sum of the products of state probabilities over all state vectors with a wanted value (undetermined counts for nothing), and the importance of a component the diagram depends on is, for each pair of adjacent states, the difference of that probability with the component fixed at the higher and at the lower state.",
  ['inputs', 'histories'], 'all multi-state structure functions, all probability vectors (in real arithmetic), all sets of wanted values',
  'A sum over exponentially many vectors computed in one memoised pass over a shared diagram with skipped levels.',
  ['mss/src/mdd_prob.rs', 'mss/src/mdd.rs'], [('memoised expectation', 'mss/src/mdd_prob.rs')], observe='returned probabilities')
p('C20', 'Multi-state counts and enumerations agree with the structure function',
  'The count for a set of wanted values is the number of state vectors of the variables up to the top variable that give a wanted value, and the path enumeration yields exactly these vectors, each once and each in full (variables the function skips included). Undetermined vectors never count.',
  ['inputs', 'histories'], 'all structure functions of Boolean and value kind, all sets of wanted values, constants and skipped levels included',
  'Skipped levels must be weighted by the product of the numbers of states of exactly the skipped variables.',
  ['mss/src/mdd_count.rs', 'mss/src/mdd_path.rs'], [('count with level gaps', 'mss/src/mdd_count.rs'), ('path iterator', 'mss/src/mdd_path.rs')], observe='returned counts and paths')
p('C21', 'Minimal path and cut vectors of multi-state systems are exactly the minimal ones',
  'For a monotone, fully determined multi-state structure function, the minimal path vectors of every level are exactly the minimal state vectors at which the system reaches that level, and the minimal cut vectors exactly the maximal vectors at which it does not exceed it; extracting by value gives the minimal (maximal) vectors of exactly that value. For a function that is not monotone no family is returned.',
  ['inputs', 'histories'], 'all multi-state structure functions over any components and levels',
  'Minimality and completeness quantify over the whole lattice of state vectors.',
  ['mss/src/mdd_minsol.rs', 'mss/src/mss.rs', 'mss/src/zmdd.rs'], [('minimal vectors by subtraction', 'mss/src/mdd_minsol.rs'), ('level extraction', 'mss/src/zmdd.rs')], observe='extracted vectors')
p('C22', 'Counting, enumerating and converting families preserves them',
  'The number reported for a zero-suppressed family is the number of its members, enumerating it yields every member exactly once, and turning the minimal solutions of a structure function into a genuine zero-suppressed family keeps exactly the same members, for binary and multi-state systems.',
  ['inputs', 'histories'], 'all families over any elements, skipped levels, shared subgraphs and the empty families included',
  'The source and the zero-suppressed store read a skipped level differently and the walks are memoised over shared nodes; tests use small examples.',
  ['bss/src/zdd_count.rs', 'bss/src/zdd_path.rs', 'bss/src/zdd_convert.rs', 'mss/src/zmdd_convert.rs'], [('conversion across level gaps', 'zdd_convert.rs, zmdd_convert.rs'), ('family count', 'zdd_count.rs')], observe='extracted sets and counts')

def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for x in L:
            if x['id'] in PROPS or x['id'] in NOT_APPLICABLE: f.write(json.dumps(x) + '\n')
    checks = []
    for k, v in PROPS.items():
        c = dict(property=k, quick_cmd=f'./check {k}', thorough_cmd=f'./check {k} --thorough', evidence_file=f'evidence/{k}.json', technique=v.get('technique', 'contracts on the extracted real code, discharged by Verus/Z3'), level=v.get('level', 'proof'), level_note=v.get('note', '') or 'see DESIGN.md')
        if v.get('theorems'): c['theorems'] = v['theorems']
        checks.append(c)
    m = dict(version=1, setup_cmd='./setup', checks=checks, not_applicable=[dict(property=k, reason=r) for k, r in NOT_APPLICABLE.items()], notes='contracts in specs/*.vrs, extractor in vx/, bounded stand-in and input search in harness/, driver check, known findings in known-findings.txt')
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
main()
