#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
D='include/tdzdd/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=[D+f for f in files],
        state=[dict(name=a,meaning=b,where=D+c) for a,b,c in (state or [])],
        mechanism=[dict(name=a,where=D+b) for a,b in mech],
        observe_at=observe or [],hook_needed=None)))

p('C01','Construction builds exactly the function the specification defines',
 'For every specification with finitely many reachable states, the diagram constructed from it maps each assignment of values to the levels to the same terminal that following the specification from its root state with that assignment reaches, for diagrams of any arity and for every state representation (stateless, scalar, array, scalar plus array). Merging states that compare equal, skipping levels, returning terminals early and deleting useless branches while building never change that mapping; a merge function that rejects one of two equal states removes exactly the paths through that state.',
 ['inputs','programs'],'every specification (root state, transition function, state equality) x every assignment x every arity',
 'The tests compare a few random tables, combinations and path counts; a wrong merge, a lost branch or a mis-levelled child that needs a particular state graph shape (level skips over two levels, empty levels, duplicate states, early terminals) is not reached.',
 ['dd/DdBuilder.hpp','dd/DdSweeper.hpp','DdStructure.hpp','DdSpec.hpp','dd/Node.hpp'],
 [('level-by-level construction with a per-level unique table of states','dd/DdBuilder.hpp DdBuilder::initialize, construct, construct_'),('deletion of rows whose nodes all lead to the 0-terminal','dd/DdSweeper.hpp DdSweeper::update')],
 [('spawnTable','states waiting per level, each with the place its node id must be written','dd/DdBuilder.hpp'),('root','root node id','DdStructure.hpp')],
 ['cardinality, iteration, evaluation and dump of the constructed diagram'])
p('C02','Reduction never changes the function a diagram represents',
 'Applying BDD, ZDD or quasi reduction to any valid diagram leaves the represented function unchanged under the corresponding reading (don\'t-care skipping for BDD, zero-suppressed skipping for ZDD, no skipping for quasi reduction of a complete diagram). This holds for every arity, every shape of input diagram and any number of repeated reductions.',
 ['inputs'],'every well-formed node table (any arity, any level skips, any sharing, dead nodes, terminal roots) x each of the three reductions',
 'The tests reduce random complete tables of a few sizes and compare with a counting oracle; the in-place list threading of the binary algorithm depends on sharing patterns that random complete trees rarely have.',
 ['dd/DdReducer.hpp','DdStructure.hpp','dd/NodeTable.hpp'],
 [('Algorithm R, equivalence-class list threading through the child fields','dd/DdReducer.hpp DdReducer::algorithmR'),('hash-based reduction for arity > 2','dd/DdReducer.hpp DdReducer::reduce_'),('pre-pass that applies the deletion rule to children','dd/DdReducer.hpp DdReducer::makeReadyForSequentialReduction')],
 [('newIdTable','old node -> new node id','dd/DdReducer.hpp')],['zddCardinality/bddCardinality, evaluate, iteration after reduce'])
p('C03','Reduction yields the canonical, minimal diagram',
 'After BDD, ZDD or quasi reduction no two nodes of one level have the same children, no remaining node satisfies the corresponding deletion rule (all children equal for BDD, all non-zero branches to the 0-terminal for ZDD, all branches to the 0-terminal for quasi reduction), and every remaining node is reachable in the reduced structure from the level it was built for. Consequently two diagrams for the same function reduce to identical structures of the same size, whichever way they were built.',
 ['inputs'],'every pair of well-formed diagrams with the same function x each reduction',
 'Tests only check expected node counts of a few concrete functions.',
 ['dd/DdReducer.hpp','util/MyHashTable.hpp'],
 [('unique node detection','dd/DdReducer.hpp algorithmR (f0/f1 equivalence lists), reduce_ (unique table)')],
 [('output','the reduced node table','dd/DdReducer.hpp')],['size(), operator==, node table'])
p('C04','Subsetting computes exactly the intersection with the specification',
 'Subsetting a ZDD by a specification leaves exactly those members of the original family that the specification also accepts, in the zero-suppressed reading of both, for every diagram and every specification, including when the tops of the two differ, when either is a terminal and when repeated. Nothing is added, lost or duplicated.',
 ['inputs','programs'],'every ZDD x every specification x every member',
 'The tests subset by size constraints only on complete families; mismatching levels and terminal roots are not exercised.',
 ['dd/DdBuilder.hpp','DdStructure.hpp','dd/DdSweeper.hpp'],
 [('synchronised descent of diagram and specification','dd/DdBuilder.hpp ZddSubsetter::initialize, subset, subset_, downTable, downSpec')],
 [('work table','per input node the list of specification states paired with it','dd/DdBuilder.hpp')],['members and cardinality after zddSubset'])
p('C05','Specification combinators accept exactly the boolean combination',
 'The conjunction, disjunction, intersection and union of specifications accept an assignment exactly when all (respectively at least one) of the operands accept it, in the BDD reading for and/or and the zero-suppressed reading for intersection/union. This holds for operands whose levels differ or that terminate early and for any number of operands; states of the combination that compare equal have equal futures.',
 ['inputs','programs'],'every pair (and tuple) of operand specifications x every assignment',
 'No test combines specifications whose levels diverge in all relative orders or whose terminals are reached at different times.',
 ['op/BinaryOperation.hpp','DdSpecOp.hpp'],
 [('level-synchronised stepping of the operand states','op/BinaryOperation.hpp BinaryOperation, BddAnd_, BddOr_, ZddIntersection_, ZddUnion_ getRoot/getChild/equalTo')],
 None,['diagram built from the combined specification'])
p('C06','Adapters between reduced and complete readings keep the function',
 'Looking ahead over redundant levels keeps every assignment\'s result while never handing out a state that the underlying specification\'s own transitions make immediately redundant under the corresponding reduction rule; expanding a specification to a given number of variables makes every level explicit without changing the function; converting a BDD to a ZDD and back over a given number of variables yields diagrams of the same function.',
 ['inputs','programs'],'every specification or diagram x every number of variables at least its top level x every assignment',
 'Only cardinalities of a few conversions are compared.',
 ['op/Lookahead.hpp','op/Unreduction.hpp','DdStructure.hpp'],
 [('lookahead loops','op/Lookahead.hpp BddLookahead::lookahead, ZddLookahead::lookahead'),('level tracking','op/Unreduction.hpp BddUnreduction, ZddUnreduction')],
 None,['bdd2zdd, zdd2bdd and diagrams built from adapted specifications'])
p('C07','Counts are exact arbitrary-precision numbers',
 'The count of members of a ZDD and the count of satisfying assignments of a BDD over n variables (n at least the top level) equal the mathematical number, for any magnitude, any arity and any number of variables, and are printed as its decimal digits without leading zeros. The machine-integer and floating versions of the counters agree with the exact one whenever the count fits.',
 ['inputs'],'every diagram x every number of variables, counts of unbounded magnitude',
 'Tests compare a few known counts; a carry chain across several 63-bit limbs, a shift by a multiple of the limb width or a quotient with zero limbs is hit by almost no sample.',
 ['util/BigNumber.hpp','eval/Cardinality.hpp','DdStructure.hpp'],
 [('limb arithmetic with continuation flag','util/BigNumber.hpp BigNumber::add, shiftLeft, divide, store, size, operator=='),('bottom-up counting','eval/Cardinality.hpp CardinalityBase, BddCardinality, ZddCardinality')],
 [('array','63-bit limbs, most significant bit = another limb follows','util/BigNumber.hpp')],['strings returned by zddCardinality/bddCardinality'])
p('C08','Bottom-up evaluation computes the recurrence defined by the evaluator',
 'Evaluating a diagram calls the evaluator for both terminals and for every node after its children, passing for each branch the value already computed for that child and that child\'s level, and returns the value computed for the root. Values of levels that are still needed are never released, whatever operations (construction, reduction, subsetting, stretching, earlier evaluations) preceded.',
 ['inputs','programs','histories'],'every diagram x every evaluator x every preceding sequence of operations on it',
 'Tests use counting evaluators on freshly reduced diagrams; early release of a level that a far higher level still references needs particular level-skipping shapes.',
 ['DdStructure.hpp','dd/NodeTable.hpp','dd/DataTable.hpp','DdEval.hpp'],
 [('level-by-level sweep with release of rows no higher level references','DdStructure.hpp DdStructure::evaluate'),('index of lowest referencing levels','dd/NodeTable.hpp NodeTableEntity::makeIndex, lowerLevels, higherLevels')],
 [('lower/higher level index','cached level dependency index','dd/NodeTable.hpp')],['values returned by evaluate'])
p('C09','Iteration enumerates every member exactly once',
 'Iterating over a binary ZDD visits each member set of the represented family exactly once, with exactly its items, and then equals the end iterator; the empty family yields no element and the family of the empty set yields exactly the empty set.',
 ['inputs'],'every binary diagram without dead nodes x its members',
 'Tests iterate over combinations only, whose diagrams have regular shape.',
 ['DdStructure.hpp'],[('backtracking over the path of selections','DdStructure.hpp DdStructure::const_iterator::next')],
 [('path, cursor','selections from the root and the last one with an untried 1-branch','DdStructure.hpp')],['begin()/end() iteration'])
p('C10','Diagram equality is equality of the represented structure',
 'Comparing two diagrams yields equal exactly when the parts below their roots unfold to the same decision structure (same levels, same branches, same terminals), independently of node numbering, of sharing and of duplicate nodes; it is reflexive, symmetric and the negation of inequality. For reduced diagrams equality is therefore equality of functions.',
 ['inputs'],'every pair of diagrams (with or without duplicate or unreachable nodes)',
 'Tests never compare diagrams that differ only in numbering, in an isolated node or in size.',
 ['DdStructure.hpp','util/MyHashTable.hpp'],[('level-wise matching through a hash map','DdStructure.hpp DdStructure::operator==')],None,['operator==, operator!='])
p('C11','Diagrams have value semantics',
 'Copies and assignments of diagrams are independent values: no operation on one (reduction, subsetting, assignment, stretching, destruction) changes what another represents, self-assignment is harmless, and every node table is released exactly once.',
 ['histories'],'every sequence of copies, assignments, in-place operations and destructions of diagrams',
 'Tests operate on single diagrams with at most one copy.',
 ['dd/NodeTable.hpp','dd/DataTable.hpp','DdStructure.hpp'],
 [('reference counting and copy on write','dd/NodeTable.hpp NodeTableHandler copy constructor, operator=, privateEntity, derefLevel, init, Object::ref/deref')],
 [('refCount','number of handlers sharing an entity','dd/NodeTable.hpp')],['observable behaviour of the other copies'])
p('C12','Hash tables behave as sets and maps',
 'For every sequence of insertions, lookups, re-initialisations, clears and copies, and for every hash and equality pair consistent with each other, the hash containers contain exactly the distinct inserted elements, insertion returns the element already equal to the argument if there is one, lookup finds exactly what is contained, and iteration visits each once. Growing, colliding and full-bucket wrap-around never lose or duplicate an element.',
 ['inputs','histories'],'every operation sequence x every hash/equality pair x every table size',
 'No test targets the table; collisions that wrap around the end exactly at the fill limit depend on hash values.',
 ['util/MyHashTable.hpp'],[('open addressing with linear probing and rehash at the fill limit','util/MyHashTable.hpp MyHashTable::add, get, rehash, initialize, MyHashMap::operator[], getValue')],
 [('table_, size_, maxSize_','buckets, number of elements, fill limit','util/MyHashTable.hpp')],['add/get/size/iteration; unique tables of construction and reduction'])
p('C13','Sequence containers and memory pools keep elements intact and in bounds',
 'Vectors, lists, per-level data tables and memory pools used by the library keep each stored element unchanged and at its position or in order until it is removed, construct and destroy each element exactly once, never hand out overlapping memory, and never touch memory outside what they own, for every sequence of operations and sizes.',
 ['inputs','histories'],'every operation sequence x every element size and count',
 'No test targets the containers; capacity boundaries, pool block boundaries and elements larger than a block are not reached.',
 ['util/MyVector.hpp','util/MyList.hpp','util/MemoryPool.hpp','dd/DataTable.hpp'],
 [('capacity doubling and element relocation','util/MyVector.hpp'),('linked blocks','util/MyList.hpp'),('bump allocation from blocks','util/MemoryPool.hpp')],
 [('capacity_, size_, array_','vector storage','util/MyVector.hpp'),('blockList, nextUnit','pool storage','util/MemoryPool.hpp')],['container API'])
p('C14','Parallel algorithms give the same result as the serial ones',
 'With multi-processor algorithms enabled, construction, reduction, subsetting and evaluation yield diagrams for the same function and values as the serial algorithms, and identical reduced structures up to numbering, for every number of threads and every schedule.',
 ['schedules','inputs','configurations'],'every specification/diagram x every thread count x every interleaving',
 'Tests run a few inputs with 4 threads under whatever schedule happens.',
 ['dd/DdBuilder.hpp','dd/DdReducer.hpp','DdStructure.hpp','util/MyHashTable.hpp'],
 [('task matrix indexed by producer thread and hash task','dd/DdReducer.hpp reduceMP_; dd/DdBuilder.hpp DdBuilderMP, ZddSubsetterMP')],None,['results with useMP on'])
p('C15','Exported diagrams denote the same function',
 'The textual node-table export lists every node with its level and children so that reading it back gives the same function, with declared counts equal to the listed nodes and every referenced node listed before use; the graph export of a specification or diagram draws exactly its nodes, edges and terminals; searching a specification for one instance yields an accepted path exactly when one exists. This includes diagrams that consist of a terminal only.',
 ['inputs','programs'],'every binary diagram (export), every diagram or specification (graph)',
 'Tests never parse an export.',
 ['DdStructure.hpp','dd/NodeTable.hpp','dd/DdBuilder.hpp','DdSpec.hpp'],
 [('dump with consecutive even ids','DdStructure.hpp DdStructure::dumpSapporo'),('DOT output','dd/NodeTable.hpp dumpDot; dd/DdBuilder.hpp DdDumper')],None,['text written to the stream'])
p('C16','Specification states are created and released in balance',
 'During construction, subsetting and combination every specification state handed out is initialised before it is used, is released exactly once and is not used afterwards; states merged into an equal one are released and never leak or get released twice.',
 ['inputs','programs','histories'],'every specification with non-trivial state x every construction/subsetting',
 'Tests use plain-data states for which a leak or double release is invisible.',
 ['dd/DdBuilder.hpp','DdSpec.hpp','op/BinaryOperation.hpp','op/Lookahead.hpp','op/Unreduction.hpp'],
 [('get_copy / destruct / destructLevel protocol','dd/DdBuilder.hpp DdBuilder, ZddSubsetter; DdSpec.hpp')],None,['constructor/destructor balance of user states'])
p('C17','Built-in arithmetic constraints accept exactly the sets they describe',
 'The size constraint accepts exactly the sets whose number of items lies in the given integer subset; the linear constraints accept exactly the assignments satisfying every given inequality; the degree constraint accepts exactly the edge sets in which each constrained vertex has an allowed number of incident edges; integer ranges contain exactly the arithmetic progression they are given. This holds for every n, coefficient, bound, step and every graph with at least one edge and no self-loop (sums and degrees within the machine range), without premature rejection or acceptance.',
 ['inputs'],'every parameter set x every assignment',
 'Tests check a few binomial sums; boundary steps, negative bounds and vertices that finish early are not sampled.',
 ['spec/SizeConstraint.hpp','util/IntSubset.hpp','spec/LinearConstraints.hpp','spec/DegreeConstraint.hpp'],
 [('bounds pruning','spec/SizeConstraint.hpp getChild; util/IntSubset.hpp IntRange; spec/LinearConstraints.hpp getChild; spec/DegreeConstraint.hpp takable/leavable')],None,['members of diagrams built from the constraints'])
p('C18','Graph specifications enumerate exactly the intended subgraphs',
 'For every undirected graph with a given edge order, the path specifications accept exactly the edge sets that form a simple path between the required terminals (or cycle, or Hamiltonian path/cycle, or one path per colour pair, as documented) and the frontier-based search accepts exactly the edge sets with the requested number of components, loops and terminal connectivity.',
 ['inputs'],'every graph x every edge order x every edge subset',
 'Tests count paths on grids; other graphs, disconnected graphs, colours and frontier orders are not sampled.',
 ['spec/PathZdd.hpp','spec/FrontierBasedSearch.hpp','util/Graph.hpp'],
 [('mate array / component tracking','spec/PathZdd.hpp, spec/FrontierBasedSearch.hpp'),('frontier bookkeeping','util/Graph.hpp Graph::update')],None,['members of diagrams built from the specifications'])
p('C19','Node identifiers encode level and position without loss',
 'A node identifier built from a level, a position and an attribute gives back exactly these, identifiers compare and hash by level and position irrespective of the attribute, ordering is by level then position, and terminals 0 and 1 are below every non-terminal. The universal diagram over n variables contains all assignments and stretching a diagram at the bottom by m >= 0 levels moves every node up by m levels and nothing else.',
 ['inputs'],'every level below 2^20 and position below 2^43, every diagram and stretch amount',
 'Tests use small levels and positions and never compare attributed identifiers.',
 ['dd/Node.hpp','dd/NodeTable.hpp','DdStructure.hpp'],
 [('bit packing','dd/Node.hpp NodeId'),('row shifting','dd/NodeTable.hpp NodeTableEntity::stretchBottom')],
 [('code_','packed identifier','dd/Node.hpp')],['row(), col(), comparison operators, stretchBottom'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,x['id']
        f.write(json.dumps(x)+'\n')
print(len(P))
