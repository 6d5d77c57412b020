"""What is claimed per property (read by check.py and tools/mkmanifest.py)."""
MP={'C01','C02','C03','C04','C08'}
MULT=dict(C01=8,C02=8,C03=6,C04=12,C05=12,C06=8,C07=1,C08=16,C09=16,C10=6,C11=20,C12=20,C13=5,C15=20,C16=15,C17=15,C18=2,C19=10)
TRUSTED=['vcg/ (the VC generator: LLVM IR parser, symbolic executor with loop cutting, ground instantiation; unverified Python)',
 'clang 18 front end and the LLVM normalisation passes (sroa, inline, early-cse, gvn, instcombine, simplifycfg, loop-simplify, full unrolling of constant loops)',
 'z3 5.3.2 and cvc5 1.1.2 unsat answers']
ASSUME=['proofs are of partial correctness (termination is not proved) and of the single-threaded code; allocation succeeds (std::bad_alloc and stack exhaustion excluded)',
 'compiled with NDEBUG as the project\'s own build does: assert() in the library is not relied on',
 'objects reached through different owning pointers of the modelled structures do not overlap (ownership discipline stated per contract)']
def c(level,bounded,explanation,technique=None,note=None,**k): return dict(level=level,bounded=bounded,explanation=explanation,technique=technique,note=note,**k)
B='random and enumerated cases from VERIF_SEED: '
PT='contract-based deductive verification: contracts on the real functions, obligations generated from LLVM IR of /repo\'s headers on every run, discharged by z3/cvc5'
PB=PT+'; bounded executable contracts for the functions not under proof'
BT='bounded stand-in (labelled bounded, not proved): executable contracts on the real code under AddressSanitizer/UBSan, checked against an independent oracle'
CLAIMS={
'C01':c('other',B+'specifications given as explicit transition tables (arity 2, 3, 4; up to 8 levels compared on every assignment, larger ones sampled; 10 state representations; useMP on and off)',
 'Bounded only: DdBuilder::construct keeps states in untyped pool memory linked through casts, outside the memory model of the verifier. Construction is compared with direct evaluation of the specification on every assignment. The parts it relies on are proved elsewhere: MyHashTable (C12), MyVector (C13), NodeId/Node (C19), NodeTableHandler (C11).',BT),
'C02':c('other',B+'well-formed diagrams up to 8 levels, compared before/after on every assignment; also the OpenMP reducers',
 'Proved for all inputs: DdReducer::reduce_ (BDD, ZDD and quasi; arity 2 and 3), one level of the reduction: a deletable node is replaced by its 0-child, every other node is mapped to an output node with the same (mapped) children, root references are mapped, lower rows are not disturbed. By induction over the levels (argued, not mechanised) the function is kept. Bounded: the driver (setRoot, garbageCollect, the level loop in DdStructure), higher arities, reduceMP_.',PB),
'C03':c('other',B+'diagrams up to 8 levels; canonical size from truth tables, no duplicate/deletable/unreachable node',
 'Proved for all inputs: DdReducer::reduce_ (BDD, ZDD and quasi; arity 2 and 3): no two nodes of the output row have the same children, none is deletable, each is the image of an input node. Bounded: reachability over all levels (garbageCollect), higher arities, reduceMP_.',PB),
'C04':c('other',B+'diagram/specification pairs up to 7 levels on every assignment',
 'Proved for all inputs: ZddSubsetter::downTable and downSpec (arity 2, 3), the two steps that move the diagram and the specification to a common level without changing the zero-suppressed meaning. Bounded: initialize, subset (states in pool memory), ZddSubsetterMP; truth-table intersection is the oracle.',PB),
'C05':c('proof',B+'pairs and tuples of operand specifications up to 6 levels on every assignment',
 'Proved for all operand specifications that satisfy the DdSpec interface, all states, levels and assignments: getRoot, getChild, equal_to, hash_code, get_copy and the constructors of BddAnd_, BddOr_, ZddIntersection_, ZddUnion_ keep the invariant "meaning of the combined state = boolean combination of the meanings of the parts". Induction over the levels and nesting for more than two operands are argued in DESIGN.md. A bounded stand-in runs as well.',PT),
'C06':c('other',B+'specifications up to 6 levels and all admissible numbers of variables',
 'Proved for all adapted specifications: get_root, get_child, get_copy, equal_to, hash_code of BddLookahead, ZddLookahead, BddUnreduction, ZddUnreduction (arity 2 and 3): same function, lookahead never hands out an immediately redundant state, unreduction skips no level. Bounded: bdd2zdd/zdd2bdd of DdStructure (compositions of these with construction and reduction).',PB),
'C07':c('other',B+'BigNumber operations against an independent decimal arithmetic (up to hundreds of limbs), counts of diagrams with up to 1000s of levels',
 'Proved for all magnitudes: BigNumber::add, shiftLeft, divide, store, size, operator== (limb-exact, any number of limbs). Bounded: the counting evaluators (eval/Cardinality.hpp) and decimal printing against an independent big-integer oracle.',PB),
'C08':c('other',B+'diagrams up to 7 levels and random operation histories with a value-carrying evaluator',
 'Proved for all well-formed diagrams: sequential DdStructure::evaluate (arity 2, 3) calls the evaluator in the order and with the arguments of the recurrence, values still needed are not released, the value of the root is returned; NodeTableEntity::getZeroDescendant. Assumed there: lowerLevels(i) lists only rows that no higher row refers to (bounded). Bounded: the OpenMP evaluation and histories.',PB),
'C09':c('other',B+'binary diagrams up to 8 levels',
 'Proved: NodeTableEntity::getZeroDescendant. Bounded: the iterator (std::vector path and std::set result, exceptions of the standard library outside the verifier): members compared with the truth table.',PB),
'C10':c('other',B+'pairs of diagrams up to 6 levels',
 'Bounded only: operator== keeps its correspondence in a map from the standard/ext library, outside the memory model of the verifier. Compared with equality of unfoldings. NodeId/Node comparison is proved in C19.',BT),
'C11':c('other',B+'random histories of up to 40 operations on up to 6 diagrams',
 'Proved for all histories: every member of NodeTableHandler keeps "reference count = number of handlers", releases a table exactly when its last handler goes away, gives writable access only to unshared tables and changes no table another handler refers to. Bounded: DdStructure operations on top of it (they reach tables only through a handler), under AddressSanitizer.',PB),
'C12':c('proof',B+'random operation sequences against std::map/set with adversarial hashes',
 'Proved for every element type, hash and equality (abstract, consistent), any contents and size: all members of MyHashTable and its iterators (add, get, rehash, initialize, clear, copy, assignment, move, iteration). Bounded: MyHashMap and MyHashDefault-based wrappers.',PT),
'C13':c('other',B+'random operation sequences against std containers, element lifetime counting, AddressSanitizer',
 'Proved for every element type and size: all members of MyVector (contents, element life cycle, bounds). Bounded: MyList, MyListOnPool, DataTable, MemoryPool.',PB),
'C15':c('other',B+'diagrams up to 6 levels, exports parsed back','Bounded only: the exports are text produced through std::ostream, which the verifier does not model; they are parsed back and evaluated.',BT),
'C16':c('other',B+'life-cycle counting states in every construction, subsetting, combinator, adapter, export and instance search',
 'Proved (typestate of abstract operand states: not live -> live -> released): all state operations of the combinators and adapters and ZddSubsetter::downSpec. Bounded: the builders and exporters, with life-cycle ghost state at run time.',PB),
'C17':c('other',B+'parameters and all assignments up to 8 items',
 'Proved: IntRange, SizeConstraint (for every subset whose members lie between its bounds), LinearConstraints<int>::getChild (each step keeps the truth of every inequality for every possible contribution of the remaining levels; values below 2^28). Bounded: LinearConstraints::addConstraint/update (std::map), DegreeConstraint.',PB),
'C18':c('other',B+'graphs up to 7 vertices, all edge subsets','Bounded only: the specifications rely on Graph (std::map/std::set/std::string), outside the verifier; definition evaluated on every edge subset. Two open findings (known_findings.txt).',BT),
'C19':c('other',B+'identifiers over boundary levels/positions, universal diagrams and stretches',
 'Proved for all values: every member of NodeId and Node (arity 2, 3, 5), NodeTableEntity::initTerminals. Bounded: universal diagrams and stretchBottom.',PB),
}
NA={'C14':'Quantifies over thread schedules of OpenMP regions: the sequential deductive verifier has no model of concurrency (no ownership transfer at parallel regions, no OpenMP runtime contract), so no contract within reach can decide it. The MP code paths are nevertheless exercised (bounded, under whatever schedule happens) by the stand-ins of C01-C04 and C08.'}
