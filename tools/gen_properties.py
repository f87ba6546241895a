#!/usr/bin/env python3
# Generates properties.jsonl (kept as a script so that wording is edited in one place).
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=False):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":s,"meaning":"state the property is about","where":files[0]} for s in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
NOT="The repository's tests only exercise the vendored decision-diagram library; even with planner tests, "
p("P01","Progression search prints only valid HTN plans",
  "Whenever progression search reports a solution, the printed action sequence is executable from the initial state, reaches the goal, and is exactly the leaf sequence of the printed decomposition tree, which starts at the initial task, uses only methods of the model for the tasks they decompose, and respects every ordering constraint of the methods used. This holds for every search configuration (heuristics, weights, g values, visited-list options, early goal test).",
  ["inputs","configurations"],"all grounded HTN problems in grounder normal form x all progression options",
  NOT+"a valid plan on sampled domains says nothing about other orderings, shared subtrees, effectless or only-possible-modification steps that are progressed implicitly.",
  ["src/search/PriorityQueueSearch.h","src/ProgressionNetwork.cpp","src/Model.cpp"],
  [("solution printing from the search node's trace","src/ProgressionNetwork.cpp extractSolutionFromSearchNode"),("applying and decomposing","src/Model.cpp apply/decompose/progressEffectLess/apply one-modification")],
  observe=["stdout of the engine: plan block between ==> and <=="])
p("P02","Solved / proven-unsolvable verdicts of progression search are correct",
  "Progression search answers 'Proven unsolvable' only for problems that have no solution, and for every problem whose search space is finite it terminates with a plan if and only if one exists (heuristics that are inverted to prefer deeper or costlier nodes, and combinations with them, carry no promise of termination where tasks recurse). The verdict does not depend on the heuristic, the g value, the weight, the random seed, early goal testing or the visited-list options, except those documented to make duplicate pruning approximate (no task sequences on totally ordered problems, no isomorphism check on partially ordered ones).",
  ["inputs","configurations"],"all grounded HTN problems x all progression configurations and seeds",
  NOT+"a wrongly pruned node only shows on problems where the pruned branch is the only one leading to a plan.",
  ["src/search/PriorityQueueSearch.h","src/VisitedList.cpp","src/heuristics/rcHeuristics/hhRC2.h","src/Model.cpp"],
  [("search loop with pruning by visited list, heuristic and task reachability","src/search/PriorityQueueSearch.h search()"),("fringe order","src/search/fringes/OneQueueWAStarFringe.cpp")],
  observe=["stdout: Status line"])
p("P03","A* with an admissible heuristic returns a cost-optimal plan",
  "With action-cost g values, weight 1, late goal test and an admissible heuristic (zero, or relaxed-composition LM-cut estimating cost), the plan returned by progression search has the minimum total action cost among all solutions. With weight w its cost is at most w times that minimum.",
  ["inputs","configurations"],"all solvable grounded HTN problems with non-negative costs x admissible configurations",
  NOT+"a sub-optimal answer is still a valid plan, so only comparison against an independent optimal solver over many problems reveals it.",
  ["src/search/fringes/OneQueueWAStarFringe.cpp","src/search/PriorityQueueSearch.h","src/VisitedList.cpp","src/heuristics/rcHeuristics/hsLmCut.cpp","src/heuristics/rcHeuristics/hhRC2.h"],
  [("f-value ordering and tie breaking","src/search/fringes/OneQueueWAStarFringe.cpp"),("re-expansion of cheaper duplicates","src/VisitedList.cpp insertVisi")],
  observe=["stdout: plan and cost"])
p("P04","Reported plan length and cost agree with the printed plan",
  "The reported solution length equals the number of printed steps (actions plus decompositions) and the reported total cost equals the sum of the model's costs of exactly these actions. Suppressing plan output changes neither verdict, length nor cost.",
  ["inputs","configurations"],"all solved problems x all progression configurations",
  NOT+"cost accounting runs along several code paths (explicit application, implicitly progressed actions, preprocessing) and only diverges on inputs that mix them.",
  ["src/ProgressionNetwork.cpp","src/Model.cpp","src/search/PriorityQueueSearch.h"],
  [("action cost accumulation","src/Model.cpp apply / progressEffectLess / one-modification actions"),("statistics printing","src/search/PriorityQueueSearch.h")],
  observe=["stdout: length and cost lines"])
p("P05","Runs are reproducible for a fixed seed",
  "Two runs on the same input with the same options and the same seed print the same plan, verdict, length, cost, number of generated nodes and visited-list statistics. Neither memory layout, nor reading from standard input instead of a file, nor the time limit value changes them when the limit is not reached.",
  ["inputs","configurations","schedules"],"all inputs x configurations x memory layouts and run-time environments",
  NOT+"dependence on uninitialised memory or on pointer order only shows when the environment varies between runs.",
  ["src/SearchEngine.cpp","src/search/PriorityQueueSearch.h","src/VisitedList.cpp","src/sat/sat_planner.cpp"],
  [("seeding","src/SearchEngine.cpp main"),("random choice of the abstract task to decompose","src/search/PriorityQueueSearch.h")],
  observe=["stdout minus timing lines, under malloc perturbation, ASLR and stdin/file variation"])
p("P06","The time limit stops the search and is reported as a timeout",
  "On problems whose search does not finish, a progression run with time limit t stops within a small margin after t seconds and reports a timeout, never unsolvability. A search that finishes before the limit never reports a timeout, and a zero or default limit does not stop short searches.",
  ["inputs","configurations","schedules"],"all problems with long or infinite search spaces x limits x heuristics",
  NOT+"an off-by-unit or a misplaced check only shows in long-running searches, which unit tests avoid.",
  ["src/search/PriorityQueueSearch.h","src/SearchEngine.cpp"],
  [("periodic time check","src/search/PriorityQueueSearch.h search()")],
  observe=["wall clock of the process, Status line"])
p("V01","Duplicate pruning never merges search nodes that are not equivalent",
  "A search node is rejected as already visited only if an earlier accepted node had the same state and a task network isomorphic to it (task labels and ordering), and, in cost-aware mode, was reached at no higher cost. This holds for every combination of visited-list options not documented to make pruning approximate.",
  ["inputs","histories","configurations"],"all sequences of insertions of search nodes x all visited-list option combinations",
  NOT+"merging two different networks requires specific partial orders that share all the invariants being hashed, which hand-written samples miss.",
  ["src/VisitedList.cpp","src/intDataStructures/CompressedSequenceSet.cpp","src/intDataStructures/HashTable.cpp","src/ProgressionNetwork.h"],
  [("insert with hash-indexed tables and graph-isomorphism check","src/VisitedList.cpp insertVisi, matching"),("choice of the compact mode for totally ordered and parallel-sequence problems","src/Model.cpp computeTransitiveChangeOfMethodOrderings")],
  state=["visited table contents"],observe=["return value of the insert call for every node of real searches and random walks"])
p("V02","Exact visited-list modes recognise every re-visited search node",
  "In modes documented as exact (totally ordered problems and parallel-sequence problems with the task sequences stored, and partially ordered problems with the graph-isomorphism check) re-inserting a node equivalent to an accepted one with no lower cost is always rejected, and a node not seen before is always accepted. A strictly cheaper re-visit in cost-aware mode is accepted.",
  ["inputs","histories","configurations"],"all insertion histories x exact option combinations",
  NOT+"missed duplicates do not change answers on small cases; they only cause non-termination or exponential blow-up on others.",
  ["src/VisitedList.cpp","src/intDataStructures/SequenceSet.cpp","src/intDataStructures/CompressedSequenceSet.cpp"],
  [("payload (best cost) handling","src/VisitedList.cpp insertVisi")],
  observe=["return value of the insert call","terminating behaviour on cyclic problems"])
p("H01","Heuristics declare dead ends only for nodes without solutions",
  "No heuristic (relaxed composition with ff, add, LM-cut or filter under every estimate, or the simple ones) and no built-in reachability pruning marks a search node as goal-unreachable if a solution can be completed from that node. The same node evaluated again yields the same value.",
  ["inputs","histories","configurations"],"all search nodes reachable by progression x all heuristics and estimates",
  NOT+"unsafe pruning only shows at nodes deep in a search where the pruned completion is the only one.",
  ["src/heuristics/rcHeuristics/hhRC2.h","src/heuristics/rcHeuristics/hsAddFF.cpp","src/heuristics/rcHeuristics/hsLmCut.cpp","src/heuristics/rcHeuristics/hsFilter.cpp","src/heuristics/rcHeuristics/RCModelFactory.cpp","src/Model.cpp"],
  [("relaxed composition goal and state update","src/heuristics/rcHeuristics/hhRC2.h setHeuristicValue"),("task reachability maintenance","src/Model.cpp updateReachability")],
  observe=["goalReachable flag and value after every heuristic call on every node of explored search spaces"])
p("H02","LM-cut with cost estimation never overestimates the remaining cost",
  "For every search node the relaxed-composition LM-cut heuristic estimating cost (with and without the task-count correction) is at most the cost of the cheapest completion of that node to a solution. It is zero or more and independent of evaluation order.",
  ["inputs","histories"],"all search nodes of all grounded problems with non-negative costs",
  NOT+"an overestimate by one at a single node suffices to lose optimality and goes unnoticed in examples.",
  ["src/heuristics/rcHeuristics/hsLmCut.cpp","src/heuristics/rcHeuristics/hhRC2.h","src/intDataStructures/IntPairHeap.h"],
  [("LM-cut computation","src/heuristics/rcHeuristics/hsLmCut.cpp getHeuristicValue"),("task count correction by minimal implied costs","src/heuristics/rcHeuristics/hhRC2.h")],
  observe=["heuristic value against the exact remaining cost from an independent solver"])
p("H03","Classical heuristics equal their definitions on the relaxed model",
  "On any STRIPS-like model, state and goal, the additive heuristic equals the least fixpoint of its defining equations, the filter heuristic equals delete-relaxed reachability, the FF value is the cost of a relaxed plan whose actions are supporters that are best with respect to the max-heuristic equations (so it is never below the optimal delete-relaxed cost, and exact where the supporters are unique), and LM-cut lies between the max heuristic and the optimal delete-relaxed cost, every cut being a set of actions without which the goal is unreachable. All of them agree on which goals are unreachable, and results do not depend on the calls made before.",
  ["inputs","histories"],"all relaxed models, states, goals and call histories",
  NOT+"priority-queue and counter resets between calls fail only for particular sequences of states.",
  ["src/heuristics/rcHeuristics/hsAddFF.cpp","src/heuristics/rcHeuristics/hsLmCut.cpp","src/heuristics/rcHeuristics/hsFilter.cpp"],
  [("generalised Dijkstra over facts","src/heuristics/rcHeuristics/hsAddFF.cpp"),("cut extraction","src/heuristics/rcHeuristics/hsLmCut.cpp")],
  observe=["returned values for random states and goals"])
p("H04","Landmarks reported for a task network occur in every solution",
  "For every search node, the AND/OR-graph generators report exactly the facts, tasks and methods without which one of the node's tasks or goal facts could not be derived any more in the delete-relaxed, order-free AND/OR graph (initially true facts, actions from their preconditions, methods from their subtasks, abstract tasks from any method, facts from any adding action), so every reported landmark occurs in every solution; where a task or goal cannot be derived at all, LmCausal reports every node. Both generators agree, the per-node landmark iterators list the landmarks of that node, restricting LmCausal to a planning graph gives the landmarks of the restricted graph, local landmarks are the tasks shared by all methods (recursively), and results do not depend on earlier calls.",
  ["inputs","histories"],"all search nodes of all grounded problems, all call histories",
  NOT+"an unsound landmark is one that some rarely produced alternative solution avoids.",
  ["src/heuristics/landmarks/lmExtraction/LMsInAndOrGraphs.cpp","src/heuristics/landmarks/lmExtraction/LmCausal.cpp"],
  [("landmark propagation over the AND/OR graph","src/heuristics/landmarks/lmExtraction/LMsInAndOrGraphs.cpp generateAndOrLMs"),("landmark fixpoint","src/heuristics/landmarks/lmExtraction/LmCausal.cpp calcLMs")],
  observe=["landmark lists against derivability with the node removed"])
p("H05","The planning graph reports exactly what is delete-relaxed reachable",
  "For every state and every set of admitted tasks, the planning graph reports an action, fact, method or abstract task as reachable exactly if it is derivable from the state with admitted tasks only (actions from their preconditions, facts from adders, methods from their subtasks and their admitted task, abstract tasks from methods); its useful facts are the goals and preconditions of reachable actions that do not hold yet; the reported sets list each member once, and results do not depend on earlier calls.",
  ["inputs","histories"],"all states, task sets and call histories of all grounded problems",
  NOT+"counter handling goes wrong only for particular combinations of initially true facts, costs and actions without preconditions.",
  ["src/heuristics/planningGraph.cpp"],
  [("generalised Dijkstra and bottom-up task reachability","src/heuristics/planningGraph.cpp calcReachability")],
  observe=["reported sets against a fixpoint"])
p("M01","The in-memory model equals the input file",
  "After reading a problem, facts, variables, mutex groups, invariants, action costs, preconditions, effects, initial state, goal, tasks and methods (subtasks and orderings) in memory describe exactly the problem in the file, up to the documented transitive reduction or closure of orderings and delete effects of facts that the same action also adds (adding wins, so they have no effect). Indexes derived from it (fact-to-action, add-to-action, task-to-method, first and last subtasks) are consistent with it.",
  ["inputs"],"all input files in the documented format, from file or standard input",
  NOT+"parsing mistakes on empty lists, negative literals or unusual names surface only for inputs containing them.",
  ["src/Model.cpp","src/Model.h"],
  [("parser","src/Model.cpp read / readClassical / readHierarchical"),("derived indexes","src/Model.cpp generateMethodRepresentation and read")],
  observe=["fields of the model object after reading"])
p("M02","HDDL export preserves the planning problem",
  "The domain and problem files written by the HDDL export describe a problem with the same set of solutions as the input up to renaming: same executable action sequences, same decompositions, same ordering constraints, initial state and goal (action costs are not exported). Names are derived from those of the input and unique, and the files are well-formed.",
  ["inputs"],"all grounded problems, including partially ordered methods, no-op and method-precondition actions",
  NOT+"dropping or inverting one ordering or literal keeps the export well-formed.",
  ["src/Model.cpp","src/translation/translationController.cpp"],
  [("export","src/Model.cpp writeToPDDL")],
  observe=["written .d.hddl and .p.hddl files parsed by an independent reader and solved by the reference solver"])
p("M03","Progression and decomposition operators implement HTN semantics",
  "Applying an action to a search node, or decomposing a task in it, yields exactly the successor prescribed by HTN semantics: the new state, the remaining task network with inherited orderings, the accumulated cost, the sets of unconstrained tasks and the contained-task counters. The expanded node and all its other successors are left unchanged.",
  ["inputs","histories"],"all reachable search nodes and all their successors",
  NOT+"structure sharing between nodes means a wrong write or count corrupts a sibling only in particular expansion orders.",
  ["src/Model.cpp","src/ProgressionNetwork.cpp","src/ProgressionNetwork.h"],
  [("apply and decompose","src/Model.cpp apply, decompose"),("reference counted plan steps","src/ProgressionNetwork.cpp")],
  state=["searchNode, planStep"],observe=["every generated node compared with an independent implementation, parents re-checked after expansion"])
p("M04","Structural analyses of the task hierarchy are exact or conservative",
  "The computed strongly connected components, their topological order, task reachability and the classification of the problem (totally ordered, parallel sequences, cyclic or acyclic) equal their definitions on the method hypergraph. Minimal implied costs and distances are lower bounds on what any refinement of the task contains, and the exact minimum in acyclic problems.",
  ["inputs"],"all task hierarchies",
  NOT+"the analyses feed several planners as silent preconditions, so a wrong value only shows as a wrong answer far away.",
  ["src/Model.cpp","src/Model.h"],
  [("Tarjan SCCs, reachability","src/Model.cpp calcSCCs, calcSCCGraph, tarjan"),("minimal implied costs","src/Model.cpp calcMinimalImpliedX"),("ordering classification","src/Model.cpp computeTransitiveChangeOfMethodOrderings")],
  observe=["model fields after initialisation"])
p("S01","SAT planning prints only valid HTN plans",
  "Every plan printed by the SAT-based planner, whatever satisfying assignment the SAT solver returns and for every combination of block compression, state mutexes, pruning mode and method-precondition placement, is a valid HTN plan with a valid decomposition tree for the input problem.",
  ["inputs","configurations"],"all problems x all SAT options x all satisfying assignments",
  NOT+"an under-constrained encoding yields wrong plans only for certain assignments, which depend on the solver.",
  ["src/sat/sat_planner.cpp","src/sat/pdt.cpp","src/sat/sog.cpp","src/sat/state_formula.cpp","src/sat/partial_order.cpp","src/sat/sat_encoder.cpp","src/sat/disabling_graph.cpp"],
  [("encoding of the decomposition tree","src/sat/pdt.cpp"),("ordering and executability","src/sat/sog.cpp, state_formula.cpp, partial_order.cpp"),("plan extraction","src/sat/sat_planner.cpp printSolution")],
  observe=["plan block, with a SAT solver that randomises its models"])
p("S02","The SAT encoding of depth K has a model exactly if a depth-K solution exists",
  "For every decomposition depth K that the SAT planner tries, the formula is satisfiable if and only if the problem has a solution whose decomposition tree has depth at most K. Pruning, mutexes and block compression never change satisfiability, so the first satisfiable depth is the minimal one.",
  ["inputs","configurations"],"all problems x SAT options x depths",
  NOT+"an over-constrained clause only loses solutions of particular shapes and is masked by deeper ones.",
  ["src/sat/pdt.cpp","src/sat/sat_planner.cpp","src/sat/sog.cpp","src/sat/state_formula.cpp","src/Invariants.cpp"],
  [("depth loop","src/sat/sat_planner.cpp solve_with_sat_planner"),("pruning","src/sat/pdt.cpp resetPruning / propagate")],
  observe=["SAT/UNSAT sequence per depth against the depth-bounded reference solver"])
p("S03","Plan optimisation and order output of the SAT planner are truthful",
  "In optimisation mode every further plan is valid, its reported true cost equals its action cost sum and respects the bound announced before it, the bound announced is never above the scaled cost of the plan found before, and optimisation ends only when no plan of that depth within the bound exists or the cost is 0, so that the final plan at a depth is cheapest under the scaled costs. The printed ordering relation contains exactly the constraints the decomposition tree induces on the plan's actions.",
  ["inputs","configurations","histories"],"all solvable problems x optimisation runs",
  NOT+"the relation between successive plans of one run is a history property.",
  ["src/sat/sat_planner.cpp"],
  [("cost bounding and improvement loop","src/sat/sat_planner.cpp optimisation part"),("order output","src/sat/sat_planner.cpp printOrder")],
  observe=["all plan blocks and cost lines of a run"])
p("S04","Inferred invariants and mutexes hold in every reachable state",
  "Every binary invariant imported from the input, derived from it by resolution or computed by the inductive invariant synthesis holds in every state reachable from the initial state by executable action sequences, provided the mutex groups and invariants given in the input do; literals reported as exclusive never hold together. The layered form used for pruning the leaves of decomposition trees keeps only clauses that hold after each layer, and drops only actions that are inapplicable there.",
  ["inputs"],"all grounded problems and all their reachable states",
  NOT+"an unsound invariant is only violated in states that tests do not visit.",
  ["src/Invariants.cpp"],
  [("invariant synthesis","src/Invariants.cpp compute_Rintanen_Invariants"),("invariant import","src/Invariants.cpp extract_invariants_from_parsed_model")],
  observe=["invariant tables after computation, evaluated on every reachable state"])
p("S05","Cardinality constraints and clause helpers mean what they say",
  "Each helper that emits an at-most-one, at-least-one, at-most-k, implication or equivalence constraint produces clauses whose models, projected to the given variables, are exactly the assignments satisfying the constraint, for all sizes and for mixtures of calls sharing one formula.",
  ["inputs"],"all variable sets, bounds and call sequences",
  NOT+"encodings switch with size, and projections over auxiliary variables cannot be eyeballed.",
  ["src/sat/sat_encoder.cpp","src/sat/sat_encoder.h"],
  [("at-most-one and at-most-k encoders","src/sat/sat_encoder.cpp atMostOne, atMostK")],
  observe=["emitted clauses recorded by a monitoring solver, all models projected"])
p("S06","Trees and leaf orders of the SAT planner represent exactly the decompositions",
  "For every problem and depth, the decomposition tree the SAT planner expands offers, for every task of every node and each of its methods, exactly the subtasks of that method in the children, one child per subtask, ordered as in the method and not otherwise; actions already reached are passed on to exactly one child; nothing else occurs in a child. The order of the leafs is the one induced by the tree. Actions with and without effects never share a node when they are to be kept apart. Pruning a set of leafs removes exactly the tasks and methods that no remaining complete decomposition uses, and reachability and invariant based pruning remove nothing that occurs in an executable decomposition; the invariants claimed to hold at the end do.",
  ["inputs"],"all problems, depths and sequences of prunings",
  NOT+"trees grow exponentially, and a lost or superfluous ordering between children only matters for few problems.",
  ["src/sat/pdt.cpp","src/sat/sog.cpp","src/sat/sat_planner.cpp"],
  [("expansion of nodes","src/sat/pdt.cpp PDT::expandPDT"),("common order of several methods","src/sat/sog.cpp optimiseSOG"),("leaf order","src/sat/sog.cpp SOG::expandSOG"),("pruning","src/sat/pdt.cpp PDT::propagatePruning"),("leaf filters","src/sat/sat_planner.cpp filter_leafs_ff, filter_leafs_Rintanen")],
  observe=["every node of the tree after each expansion, the leaf order, pruning flags after each propagation"])
p("S07","SAT formulas have exactly the solutions of the depth as models",
  "For every problem, depth and option, an assignment of actions to the leafs of the decomposition tree is part of a model of the generated formula if and only if it results from a complete decomposition of the initial task and the actions can be executed from the initial state, in an order the methods allow, such that the goal holds at the end. When no formula is generated because the initial task is pruned, no such decomposition exists.",
  ["inputs"],"all problems, depths, combinations of block compression, mutexes, pruning and separate leafs",
  NOT+"a lost or additional model changes the verdict only if no other solution of the same depth exists, so end-to-end runs rarely show it.",
  ["src/sat/sat_planner.cpp","src/sat/state_formula.cpp","src/sat/partial_order.cpp","src/sat/disabling_graph.cpp","src/sat/pdt.cpp"],
  [("formula of a depth","src/sat/sat_planner.cpp createFormulaForDepth"),("state transitions and mutexes","src/sat/state_formula.cpp"),("matching of leafs and positions","src/sat/partial_order.cpp generate_matching_formula"),("blocks of leafs","src/sat/disabling_graph.cpp compute_block_compression")],
  observe=["clauses passed to the solver, queried for single decompositions"])
p("B01","Symbolic search prints only valid HTN plans",
  "Every plan printed by the symbolic (decision-diagram) planner is a valid HTN plan with a valid decomposition tree for the input problem, which must be totally ordered with at most two subtasks per method.",
  ["inputs"],"all problems accepted by the symbolic planner",
  NOT+"plan reconstruction walks backwards through symbolic layers and depends on which of many encoded traces is picked.",
  ["src/symbolic_search/automaton.cpp","src/symbolic_search/transition_relation.cpp","src/symbolic_search/sym_variables.cpp"],
  [("search over automaton edges","src/symbolic_search/automaton.cpp build_automaton"),("extraction","src/symbolic_search/automaton.cpp extract")],
  observe=["plan block"])
p("B02","Symbolic search is complete and cost-optimal",
  "For totally ordered problems the symbolic planner reports unsolvability only if no plan exists, and (methods having at most two subtasks, as the symbolic planner requires) the cost at which it reports reaching the goal equals the minimum cost over all plans, which is also the cost of the plan it prints.",
  ["inputs"],"all totally ordered problems with non-negative costs",
  NOT+"layered cost bookkeeping with zero-cost actions only fails for particular cost interleavings.",
  ["src/symbolic_search/automaton.cpp"],
  [("cost layers","src/symbolic_search/automaton.cpp prim_q / abst_q")],
  observe=["goal, cost and unsolvable lines"])
p("B03","Symbolic transition relations agree with explicit state transitions",
  "For every action and every set of states, the symbolic image and preimage are exactly the sets of successor and predecessor states under the action's precondition and effects, and encoding and decoding of states is a bijection. (Every action keeps exactly one fact of each multi-valued variable true, as grounded problems do.)",
  ["inputs"],"all SAS+ models, actions and state sets",
  NOT+"it requires comparing whole sets of states for arbitrary variables domains.",
  ["src/symbolic_search/transition_relation.cpp","src/symbolic_search/sym_variables.cpp"],
  [("image and preimage","src/symbolic_search/transition_relation.cpp"),("state encoding","src/symbolic_search/sym_variables.cpp")],
  observe=["decoded state sets versus explicit computation"])
p("T01","Plans of the translated classical problem map back to valid HTN plans",
  "For every translation type, any plan of the generated classical planning task, handed back by the classical planner, is converted into a printed valid HTN plan with a valid decomposition tree of the input problem.",
  ["inputs","configurations"],"all problems x translation types x all classical plans of the generated task",
  NOT+"an under-constrained encoding only yields bad plans for certain classical plans.",
  ["src/translation/htnToSAS.cpp","src/translation/translationController.cpp"],
  [("encodings","src/translation/htnToSAS.cpp htnToCond, htnToStrips, tohtnToStrips, parallelSeqToStrips, htnPushToStrips"),("plan back-translation","src/translation/htnToSAS.cpp planToHddl")],
  observe=["generated task file, plan given back, printed plan"])
p("T02","Translation at bound k is solvable exactly if a width-k solution exists",
  "The classical task generated for progression bound k has a plan whenever the HTN problem has a solution whose progression never holds more than k tasks (the partially ordered STRIPS encoding counts the empty last task of the initial network as one of them), and never has a plan if the HTN problem has no solution. Solvability is monotone in k.",
  ["inputs","configurations"],"all problems x translation types x bounds",
  NOT+"incompleteness shows only for the particular shapes of networks the encoding forgets.",
  ["src/translation/htnToSAS.cpp"],
  [("encodings with bounded number of task slots","src/translation/htnToSAS.cpp")],
  observe=["solvability of generated tasks, decided by an exhaustive classical solver"])
p("T03","Iterating the bound drives the external planner correctly",
  "With iteration enabled the planner increases the bound by the given step whenever the external planner ends without a plan, regenerates the task for that bound, and stops with the first plan; without iteration it stops after one call. Plans left behind by earlier calls are not taken for new ones. The minimal bound used when none is given is not larger than necessary for any solution (all tasks having a finite refinement).",
  ["inputs","configurations","fault_sequences"],"all sequences of external planner outcomes and option values",
  NOT+"behaviour depends on exit codes and leftover files of an external process.",
  ["src/translation/translationController.cpp"],
  [("iteration and exit-code handling","src/translation/translationController.cpp runTranslationPlanner")],
  observe=["log of invocations recorded by a stand-in external planner"])
p("D01","Integer containers behave as the sets, stacks and heaps they claim to be",
  "For every sequence of operations the integer set, stack, bucket and heap containers return the same observable results as a reference set, stack, multiset or priority queue (within their protocols: the sorted set is sorted after appending, the bucket set is not modified while iterated), including membership, size, iteration, clearing and reuse after clearing.",
  ["histories"],"all operation sequences within declared capacities",
  NOT+"stale state after clear or re-insert needs particular operation sequences.",
  ["src/intDataStructures"],
  [("bIntSet, noDelIntSet, delIterIntSet, bucketSet, IntStack, FlexIntStack, IntPairHeap, IntUtil","src/intDataStructures/*")],
  observe=["return values of each operation"])
p("D02","Sequence dictionaries store exactly what was inserted",
  "The sequence and compressed-sequence dictionaries and the hash table return for each key exactly the payload stored for that key and report absence for every key never inserted, for any insertion order, key lengths and bit widths. Packing and unpacking a state into words is lossless.",
  ["histories","inputs"],"all insertion histories of integer sequences",
  NOT+"prefix splits and bit-boundary cases occur for combinations of lengths and alignments.",
  ["src/intDataStructures/SequenceSet.cpp","src/intDataStructures/CompressedSequenceSet.cpp","src/intDataStructures/HashTable.cpp","src/VisitedList.cpp"],
  [("trie with path compression","src/intDataStructures/CompressedSequenceSet.cpp"),("hash table of tries","src/intDataStructures/HashTable.cpp")],
  observe=["payload and presence answers"])
p("D03","Tables, group trees and big numbers of the diagram library are exact",
  "For every sequence of operations the hash tables of the decision-diagram library behave as maps from keys to values (insertion, look-up, deletion, traversal with deletion, copies, any density, growth factor and move-to-front setting); its group trees are exactly the laminar families of intervals that were requested (creation, refusal of overlapping groups, search, dissolution, swapping, reordering, copying with expansion, reading and printing); arbitrary-precision integers are exact, including their printed decimal, hexadecimal and rounded exponential forms; extended-precision numbers are correct up to rounding, with zero, infinite and undefined values handled as such; and the minterm counts of a diagram over thousands of variables equal the exact number in every one of these representations. None of it leaks or touches memory it does not own, and no assertion of the library fails.",
  ["histories","inputs"],"all operation sequences, all numbers and all numbers of variables up to thousands",
  NOT+"carries, rehashing, move-to-front deletion and rounding into a new digit appear for particular values and histories only.",
  ["src/symbolic_search/cudd-3.0.0/st/st.c","src/symbolic_search/cudd-3.0.0/mtr","src/symbolic_search/cudd-3.0.0/epd/epd.c","src/symbolic_search/cudd-3.0.0/cudd/cuddApa.c"],
  [("hash tables","st/st.c"),("group trees","mtr/mtrGroup.c, mtr/mtrBasic.c"),("extended-precision numbers","epd/epd.c"),("arbitrary-precision integers and counts","cudd/cuddApa.c, cudd/cuddUtil.c")],
  observe=["return values, contents and printed text of each operation, sanitizers"])
p("C01","Decision diagram operations are semantically correct and canonical",
  "For every sequence of operations of the vendored decision-diagram library (Boolean connectives, if-then-else, quantification, relational product, composition, renaming, permutation, restriction, ADD and ZDD operations, counting, cube iteration), used within the conventions documented for each operation, the result denotes the function defined by set semantics, and two diagrams are the same node exactly if they denote the same function.",
  ["histories","inputs"],"all operation sequences and variable orders",
  NOT+"the bundled tests check fixed circuits; caching, complement edges and terminal cases interact over histories.",
  ["src/symbolic_search/cudd-3.0.0/cudd"],
  [("recursive operators with computed table","src/symbolic_search/cudd-3.0.0/cudd/cuddBddIte.c, cuddBddAbs.c, cuddAndAbs.c, cuddCompose.c")],
  observe=["truth tables of results, node identity"])
p("C02","Garbage collection, resizing and reordering preserve every live diagram",
  "Whatever the sequence of references, dereferences, garbage collections, dynamic reorderings, variable groups and table resizes, every referenced diagram keeps denoting the same function, reference counts and unique tables stay consistent, and no memory error occurs.",
  ["histories","fault_sequences"],"all interleavings of operations with reference counting, reordering and memory limits",
  NOT+"use-after-free of nodes needs a particular history of dead nodes and cache contents.",
  ["src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c","src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c","src/symbolic_search/cudd-3.0.0/cudd/cuddRef.c","src/symbolic_search/cudd-3.0.0/cudd/cuddCache.c"],
  [("garbage collection and unique table","cuddTable.c"),("sifting and other reorderings","cuddReorder.c, cuddSymmetry.c, cuddGroup.c, cuddWindow.c, cuddExact.c, cuddGenetic.c, cuddAnneal.c, cuddLinear.c")],
  state=["unique tables, computed table, reference counts"],observe=["debug consistency check and key check, truth tables of live roots, sanitizers"])
p("C03","Decision diagrams survive being stored and loaded",
  "Storing any diagram or array of diagrams to a file in text or binary form and loading it back, in the same or another manager and variable order, yields diagrams denoting the same functions, constants of ADDs being exact to the digits written; exports to other textual formats denote the same function too (clauses in CNF: after projecting out the auxiliary variables, as the conjunction of the stored functions where they share auxiliary variables).",
  ["inputs"],"all diagrams, formats and variable orders",
  NOT+"complemented edges, constants and sparse supports are combinations samples miss.",
  ["src/symbolic_search/cudd-3.0.0/dddmp","src/symbolic_search/cudd-3.0.0/cudd/cuddExport.c","src/symbolic_search/cudd-3.0.0/cudd/cuddBddCorr.c"],
  [("store and load","src/symbolic_search/cudd-3.0.0/dddmp/dddmpStoreBdd.c, dddmpLoad.c"),("export","cuddExport.c")],
  observe=["truth tables after reload or re-interpretation"])
p("I01","Interactive mode executes exactly the choices made",
  "In interactive mode the displayed state, available steps and methods are those of the current search node (steps without alternative are taken at once), each valid choice leads to exactly the chosen successor, and a network without remaining tasks whose state satisfies the goal is reported as a solution. Invalid choices are refused without effect, and the end of the input ends the session.",
  ["inputs","histories"],"all problems and choice sequences",
  NOT+"the dialogue is a history; each display depends on all choices before.",
  ["src/interactivePlanner.cpp"],
  [("dialogue loop","src/interactivePlanner.cpp")],
  observe=["stdout of scripted sessions against the reference semantics"])
p("R01","No memory error or undefined behaviour in any planning mode",
  "Planning runs in every mode (progression, SAT, symbolic, translation, HDDL export, interactive) on well-formed inputs perform no out-of-bounds access, use after free, double free, use of indeterminate values, or other undefined behaviour, and never crash.",
  ["inputs","configurations","histories"],"all well-formed inputs x all modes and options",
  NOT+"memory errors are silent in ordinary builds and depend on sizes and histories.",
  ["src"],
  [("manual memory management of nodes, arrays and sets","src/Model.cpp, src/ProgressionNetwork.cpp, src/heuristics, src/sat, src/translation, src/symbolic_search")],
  observe=["AddressSanitizer, UndefinedBehaviorSanitizer reports and termination signals; memcheck for indeterminate values"])
p("R02","Command line handling selects what was asked for",
  "Options given on the command line select exactly the documented planner, heuristics (arguments by position or as key=value) and parameters, in every spelling, order and with defaults left out or given; the problem is read alike from a file and from standard input. Command lines with invalid values, unknown options or heuristics, several planners or several input files, and inputs that are missing, directories, empty or end too early are rejected with a message and a non-zero status instead of planning.",
  ["configurations","inputs"],"all option combinations and orders",
  NOT+"mis-wired options still plan successfully, only with another configuration.",
  ["src/SearchEngine.cpp","src/options.ggo"],
  [("option dispatch","src/SearchEngine.cpp main"),("heuristic expression parser","src/SearchEngine.cpp parse_heuristic_with_arguments_from_braced_expression")],
  observe=["exit status, echoed configuration, and behaviour that identifies the configuration"])
out=os.path.join(os.path.dirname(__file__),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
print(len(P))
