#!/usr/bin/env python3
"""Generates properties.jsonl (kept as a script so that long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["src/"+f for f in files],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b) for a, b in state],
                     observe_at=list(observe))))

prop("C01", "Trivially decidable operand combinations give the right function",
 "When an operand of conjunction, disjunction, NAND, exclusive-or, if-then-else or generalised cofactor is a constant, or when two operands are equal or complements of each other, the result handed back without any recursion denotes exactly the value of the connective on those operands. When none of these cases applies the operation is deferred, and the operands it is deferred with (possibly swapped or complemented) together with the phase correction still denote the same value.",
 ["inputs"], "all functions f, g, h, constants and complemented forms included, under every address order of their representations",
 "The suite compares a handful of random 5-variable functions; the combinations (constant / equal / complementary, either phase, either argument position) are never enumerated and an error in one of them shows only when a recursion happens to reach it.",
 ["calTerminal.c", "calReduce.c", "calInt.h"],
 [("terminal-case procedures of the connectives", "calTerminal.c"), ("terminal case of the generalised cofactor", "calReduce.c")])

prop("C02", "Binary and ternary operations expand and recombine by the top variable",
 "Conjunction, disjunction, exclusive-or and if-then-else, in their single, pairwise, multiway and pipelined forms, decompose their operands by the variable that is earliest in the current order among them, pair the positive cofactors with each other and the negative cofactors with each other (complemented operands included), and rebuild the result on that same variable. So if every sub-result denotes the operation applied to the sub-operands, the result denotes the operation applied to the operands.",
 ["inputs", "histories"], "all operand pairs and triples, every relative position of their top variables, every complement phase, any variable order",
 "Tests use at most a few variables in one or two orders and small functions; they cannot visit every relative position of top variables, phase and shared sub-request.",
 ["calApplyReduce.c", "calBddITE.c", "calBddOp.c", "calHashTableThree.c", "calInt.h"],
 [("apply phase", "calApplyReduce.c, calBddITE.c"), ("reduce phase", "calApplyReduce.c"), ("depth-first step", "calBddOp.c")])

prop("C03", "Every public operation computes the documented connective",
 "Each public operation of the API returns the function that its documentation names, for every valid argument: negation, conjunction, disjunction, NAND, NOR, exclusive-or, equivalence, if-then-else, their pairwise and multiway forms, the intersection and implication witnesses, the top-variable cofactors, the generalised cofactor family, existential and universal quantification, and the constant and comparison predicates.",
 ["inputs"], "all argument functions (constants, equal and complementary arguments included) and array lengths",
 "A test exercises each entry point on random small functions; entry points such as NOR, XNOR, universal quantification, between or the pairwise forms are thinly or never exercised and each is correct only through a particular combination of complements, kernels and argument orders.",
 ["cal.c", "calBddOp.c", "calBddITE.c", "calReduce.c", "calQuant.c", "calBddSatisfy.c"],
 [("entry points select the kernel, argument phases and result phase", "cal.c, calBddOp.c, calQuant.c, calReduce.c, calBddITE.c")])

prop("C04", "Equal functions always have the same representation",
 "No diagram ever contains a node whose two branches are the same function, a node whose positive branch is stored complemented, or two distinct nodes with the same variable and the same pair of branches. Hence two results denote the same function exactly when they compare equal.",
 ["inputs", "histories"], "every node ever created by any operation, by variable substitution, by reordering or by reading a dump, in any history",
 "Canonicity is a global invariant over all histories of node creation; tests check equality of a few results only.",
 ["calApplyReduce.c", "calReduce.c", "calHashTable.c", "calHashTableOne.c", "calBddSubstitute.c", "calReorderBF.c", "calReorderDF.c", "calBddOp.c", "calQuant.c"],
 [("look-up before insert with equal-branch elimination and phase normalisation at each creation site", "all reduce routines and find-or-add routines")])

prop("C05", "Reference counts of shared nodes account for every parent",
 "Whenever an operation or a reordering step creates a node, discards a duplicate or redundant candidate, or redirects a branch, the reference count of each affected child changes by exactly the number of edges gained or lost, and counts that have reached their maximum stay there. Consequently a node that is still reachable from any live node is never reclaimed, and a node that is not reachable becomes reclaimable.",
 ["inputs", "histories"], "every node creation, elimination and redirection in every operation, whatever the counts involved",
 "A wrong count shows only when a later garbage collection hits the node; the tests run few collections on small diagrams and never reach saturated counts.",
 ["calApplyReduce.c", "calReduce.c", "calHashTable.c", "calHashTableOne.c", "calGC.c", "calReorderBF.c", "calReorderDF.c", "calInt.h"],
 [("reference adjustments in reduce routines", "calApplyReduce.c, calReduce.c, calBddSubstitute.c"), ("saturating arithmetic on packed counts", "calInt.h")])

prop("C06", "Each result handed to the user owns exactly one reference",
 "Every operation that returns a diagram (or an array of diagrams) gives the caller exactly one new counted reference per returned diagram (the regular view of a diagram is borrowed and takes none), freeing a diagram releases exactly one, copying a handle takes exactly one, and no operation changes the number of references held by its arguments. Diagrams with at least one user reference are never reclaimed.",
 ["histories", "inputs"], "all API call sequences",
 "An extra or a missing reference on a result is invisible until a garbage collection after the matching frees; tests do not check counts.",
 ["cal.c", "calBddOp.c", "calBddITE.c", "calReduce.c", "calQuant.c", "calBddCompose.c", "calBddSubstitute.c", "calBddVarSubstitute.c", "calBddSwapVars.c", "calBddSatisfy.c", "calBddManager.c"],
 [("user node found or created and counted on return", "external-handle conversion in cal.c and macros in calInt.h")])

prop("C07", "Internal handles are never used across garbage collection or reordering",
 "No operation keeps using an uncounted internal reference to a diagram node obtained before a point at which garbage collection, repacking or dynamic reordering may run; after such a point it re-reads the node through a counted handle. So an operation's outcome does not depend on whether automatic collection or reordering happens to trigger during the call.",
 ["histories", "schedules"], "all call sequences and every possible trigger moment of automatic collection, repacking and reordering",
 "Automatic triggers depend on node counts far beyond what tests build; they never fire in the middle of the vulnerable windows.",
 ["cal.c", "calBddOp.c", "calBddSize.c", "calBddSupport.c", "calBddManager.c", "calPrintProfile.c", "calAssociation.c", "calDump.c", "calUtil.c"],
 [("collection points are only inside pre- and post-processing", "calUtil.c"), ("handles converted after pre-processing", "all API entry points")])

prop("C08", "Moving nodes updates everything that refers to them",
 "Whenever nodes are relocated in memory (repacking after a collection, or breadth-first or depth-first reordering) every kind of holder is redirected to the new location before the old one is reclaimed: parent nodes, the user's handles, the per-variable projection diagrams, variable associations including the temporary one, cached results and unfinished pipelined requests.",
 ["histories", "schedules"], "all histories that relocate nodes, with every combination of live holders",
 "Holders such as associations, pipelined requests or cache entries are rarely alive in tests when a relocation happens.",
 ["calMemoryManagement.c", "calReorderBF.c", "calReorderDF.c", "calReorderUtil.c", "calAssociation.c", "calCacheTableTwo.c", "calPipeline.c", "calGC.c"],
 [("fix-up calls between relocation and reclamation", "calMemoryManagement.c, calReorderBF.c, calReorderDF.c, calReorderUtil.c")])

prop("C09", "Garbage collection frees only dead nodes and leaves no stale reference",
 "A garbage collection reclaims a node only if its reference count is zero, releases the references the node held on its branches so that a whole dead subgraph goes in one collection, removes the node from its lookup table, keeps the node statistics in step, and drops every cached result that mentions a reclaimed node as operand or result. Diagrams with references, the constants and the projection diagrams of variables survive every collection.",
 ["histories"], "all heap states at the time of a collection",
 "Stale cache entries only matter when an address is reused by a later node, which small tests do not reach.",
 ["calGC.c", "calCacheTableTwo.c", "calHashTable.c", "calHashTableOne.c"],
 [("top-down sweep", "calGC.c"), ("cache flush of marked entries", "calCacheTableTwo.c")])

prop("C10", "A cached result is reused only for the same operation and operands",
 "Looking up the computed-result cache succeeds only for the identical operation (including the identity of the variable association involved) on the identical operands, the result it returns is the one stored for them with the right phase, and different operations or associations can never share an entry. Changing or discarding a variable association, and changing the variable order, invalidates the cached results that depend on it.",
 ["histories", "inputs"], "all sequences of operations, association changes and reorderings",
 "Cache collisions need particular operand addresses and interleavings of different operations on them; results from a wrong entry look valid.",
 ["calCacheTableTwo.c", "calBddOp.c", "calQuant.c", "calBddVarSubstitute.c", "calAssociation.c", "calInt.h"],
 [("operation code is part of the key; association identity is part of the operation code", "calCacheTableTwo.c, calInt.h"), ("flush on association change", "calAssociation.c")])

prop("C11", "Null arguments are reported, never dereferenced",
 "Passing the null diagram (the documented result of a failed operation), in any diagram argument position or array element position before the terminator where it is accepted, never crashes an operation: it returns the null diagram, or the documented neutral value for non-diagram results, without touching any other state.",
 ["inputs", "fault_sequences"], "every diagram-taking operation of the C API and every argument position",
 "Tests never pass null diagrams; in practice they appear only after a node-limit overflow.",
 ["cal.c", "calBddOp.c", "calBddITE.c", "calReduce.c", "calQuant.c", "calBddCompose.c", "calBddSubstitute.c", "calBddVarSubstitute.c", "calBddSwapVars.c", "calBddSatisfy.c", "calBddSize.c", "calBddSupport.c", "calDump.c", "calPrint.c", "calPrintProfile.c", "calPipeline.c", "calBlk.c", "calUtil.c"],
 [("argument pre-processing result guards every use", "entry points")])

prop("C12", "Node-limit overflow yields the null diagram and a usable manager",
 "If the node limit is exceeded by an operation that produces a diagram, the operation returns the null diagram, the partially built result is released and garbage is collected; no reference to it leaks and the manager stays usable. If the limit is not exceeded the result is returned unchanged.",
 ["histories", "fault_sequences"], "all operations and all node limits",
 "The tests never set a node limit.",
 ["cal.c", "calBddOp.c", "calBddITE.c", "calReduce.c", "calQuant.c", "calBddCompose.c", "calBddSubstitute.c", "calBddVarSubstitute.c", "calBddSwapVars.c", "calUtil.c"],
 [("post-processing status decides between result and null", "entry points")])

prop("C13", "Variable identifiers and order positions stay mutually inverse",
 "At every moment each variable has exactly one position in the order and each position exactly one variable, and the two mappings agree: adding a variable (first, last, before or after another) and every reordering exchange, including exchanges of variables that do not interact, update both directions together. The last-position bookkeeping of variable associations is kept consistent with the same exchange.",
 ["histories"], "all sequences of variable creation and reordering",
 "Tests create variables mostly in sequence; an inconsistent pair only shows through wrong results after particular creation or exchange sequences.",
 ["calBddManager.c", "calReorderBF.c", "calReorderDF.c", "calReorderUtil.c"],
 [("creation inserts in both maps", "calBddManager.c"), ("exchange updates both maps", "calReorderBF.c, calReorderDF.c")])

prop("C14", "Per-variable storage always covers every variable",
 "Creating a variable extends every table that is indexed by variable identifier or by order position before any of them is accessed at the new index, preserving existing entries, including tables belonging to variable associations, pipelines and reordering state. Loops that visit all variables visit each exactly once.",
 ["histories", "configurations"], "all numbers of variables, associations and pipeline depths, in any creation sequence",
 "Growth happens only when capacity is crossed while a particular table is alive; tests use few variables.",
 ["calBddManager.c", "calAssociation.c", "calPipeline.c", "calBddVarSubstitute.c"],
 [("capacity growth", "calBddManager.c")])

prop("C15", "Exchanging adjacent variables preserves every function",
 "When reordering exchanges two neighbouring variables, each node of the upper variable that depends on the lower one is rewritten so that it denotes the same function as before in the new order, nodes that do not depend on it move unchanged, complemented branches are respected and the canonical form is kept. Skipping the exchange work is allowed only for variables that no diagram mentions together.",
 ["inputs", "histories"], "all diagrams and all adjacent pairs, with both reordering methods and both reordering techniques",
 "Reordering tests check a few functions at the end of a full reordering, which hides compensating or rarely taken cases.",
 ["calReorderBF.c", "calReorderDF.c", "calInteract.c"],
 [("adjacent exchange", "calReorderBF.c, calReorderDF.c"), ("interaction matrix", "calInteract.c")])

prop("C16", "A dumped diagram is read back with the same encoding",
 "The reader of the dump format decodes every header field, entry tag, index and node number with the width, byte order and meaning the writer used, for every number of variables and of shared nodes. Constants, positive and negated variables, complemented and plain subgraphs and shared subgraphs each have one tag that the reader maps back to what the writer meant.",
 ["inputs"], "all dumped functions, numbers of variables and numbers of shared nodes",
 "Only one small dump is exercised; wider encodings (two or more bytes for indices or node numbers, shared nodes) never occur.",
 ["calDump.c"],
 [("writer and reader step functions", "calDump.c")])

prop("C17", "Dump and restore report every failure",
 "If the file does not follow the format, was written for other variables, ends early or a write fails, dump and restore say so through their documented error result, restore returns the null diagram without leaving partial references or memory behind, and success is never reported for an incomplete file.",
 ["fault_sequences", "inputs"], "all file contents and every position at which reading or writing fails",
 "Tests never feed a damaged file nor inject an I/O error.",
 ["calDump.c"],
 [("error status threaded through writer and reader", "calDump.c")])

prop("C18", "C++ objects manage references and delegate faithfully",
 "In the C++ interface every object that holds a diagram owns exactly one counted reference: copying adds one, moving transfers it, assignment releases the old one, destruction releases it, and a moved-from or default object releases nothing. Every member operation delegates to the C operation of the same meaning with its arguments in the same order, converting containers to properly terminated arrays whose elements it releases again.",
 ["programs", "inputs"], "all client programs using the C++ interface",
 "The header is compiled but no test in the repository executes it.",
 ["calObj.hh"],
 [("constructors, assignment, destructor", "calObj.hh"), ("member functions", "calObj.hh")])

prop("C19", "Everything allocated is released",
 "Closing a manager releases all memory it acquired during its life, and every operation releases its temporary tables, lists and arrays on every way out, including early returns for null arguments, trivial operands, errors and node-limit overflow. Nothing is released twice or used after release.",
 ["histories", "inputs", "fault_sequences"], "all exits of all operations, all manager life histories",
 "The suite is not run under a leak checker, and the early exits are never taken by the tests.",
 ["calBddManager.c", "calMem.c", "calMemoryManagement.c", "calHashTable.c", "calAssociation.c", "calDump.c", "calBddOp.c", "calQuant.c", "calBddSubstitute.c", "calInteract.c", "calBlk.c", "calPrint.c"],
 [("acquire/release pairs", "all files")])

prop("C20", "Traversals leave no marks behind",
 "Operations that mark nodes while walking a diagram (support, dependency test, size, profile, printing, dumping, interaction computation) clear every mark they set before returning, on every path, so that results of later traversals and operations are unaffected and each node is counted once.",
 ["histories", "inputs"], "all diagrams and all sequences of traversals",
 "A leftover mark spoils only a later traversal that meets the same node; tests run each traversal once or never.",
 ["calBddSupport.c", "calBddSize.c", "calPrint.c", "calDump.c", "calReorderUtil.c", "calInteract.c"],
 [("mark / unmark walks in pairs", "calBddSupport.c, calBddSize.c, calPrint.c, calDump.c, calReorderUtil.c")])

prop("C21", "Quantification steps eliminate exactly the associated variables",
 "Existential quantification and relational product remove exactly the variables of the chosen association: at such a variable the result is the disjunction of the two sub-results, at any other variable it is rebuilt on that variable, early termination happens only when the value is already determined, and the breadth-first and depth-first versions agree. The operands, their phases and the choice of variable are handled as in the corresponding Boolean identity.",
 ["inputs", "histories"], "all operand functions, all associations (permanent and temporary) and all variable orders",
 "Quantification tests use one or two small associations in the identity order.",
 ["calQuant.c"],
 [("apply and reduce phases of quantification, depth-first steps", "calQuant.c")])

prop("C22", "Substitution, composition and variable exchange follow their identities",
 "Composition replaces the chosen variable by the given function, simultaneous substitution replaces every associated variable by its associate at once, variable-for-variable substitution and swapping exchange exactly the given variables, and all other variables are left in place, whatever the relative order of the variables involved. Each step decomposes operands by the correct variable and pairs cofactors of the same sign.",
 ["inputs", "histories"], "all functions, variables, associations and variable orders",
 "The tests substitute a few variables in small functions with the identity order.",
 ["calBddCompose.c", "calBddSubstitute.c", "calBddVarSubstitute.c", "calBddSwapVars.c"],
 [("apply/reduce phases", "calBddCompose.c, calBddSubstitute.c, calBddVarSubstitute.c, calBddSwapVars.c")])

prop("C23", "Witness, support and dependency queries agree with the function",
 "A satisfying cube implies the function, is a single cube, and is null or zero exactly when the function is unsatisfiable; with an associated set it fixes every associated variable (other variables of the function may be fixed as well). The reported support contains a variable exactly when the diagram has a node for it, each variable once, and the dependency test agrees with it.",
 ["inputs"], "all functions and associated sets",
 "Tests call these queries on a few random functions.",
 ["calBddSatisfy.c", "calBddSupport.c"],
 [("recursive step", "calBddSatisfy.c, calBddSupport.c")])

prop("C24", "Lookup tables find exactly what was inserted, before and after growth",
 "Looking up a key in any node, request or association table returns an entry exactly if one with the same key was inserted and not removed, independent of the table size and of growth in between; growing a table loses and duplicates no entry, and entry counts follow insertions and removals.",
 ["histories"], "all insertion, lookup, removal and growth sequences",
 "Growth thresholds are crossed rarely in tests, and a misplaced entry only causes duplicates later.",
 ["calHashTable.c", "calHashTableOne.c", "calHashTableThree.c", "calReduce.c", "calReorderDF.c"],
 [("hash placement, rehash", "calHashTable.c, calHashTableOne.c, calHashTableThree.c")])

prop("C25", "Pipelined execution gives the same results as direct calls",
 "Diagrams produced by executing a pipeline equal the results of applying the pipeline's operation directly to the same operands, also when operands are themselves unfinished pipeline results. The pipeline moves only through its legal states, every created request is executed or discarded exactly once, and indices into pipeline stages stay within the supported depth.",
 ["histories", "programs"], "all pipeline shapes, depths and operations",
 "One test builds a small conjunction pipeline of fixed depth.",
 ["calPipeline.c", "calBddOp.c"],
 [("pipeline state and stage lists", "calPipeline.c")])

prop("C26", "Satisfying-fraction results are exact up to rounding",
 "The satisfying fraction of a function is the proportion of assignments that satisfy it, within floating point rounding.",
 ["inputs"], "all functions", "Numerical result over all functions.",
 ["calBddSatisfy.c"], [("recursive averaging", "calBddSatisfy.c")])

prop("C27", "Reordering never makes diagrams larger than before",
 "A completed reordering, by sifting or windows, breadth first or depth first, under any settings of its search, leaves the number of nodes in use no larger than it was when the reordering began.",
 ["histories"], "all diagrams", "Depends on the sequence of sizes met during the search.",
 ["calReorderBF.c", "calReorderDF.c"], [("sifting back to the best position", "calReorderBF.c, calReorderDF.c")])

prop("C28", "Collections, reorderings and the node limit act at the configured thresholds",
 "Once enough nodes have been created since the last test and the number of nodes exceeds the collection limit, the next operation collects garbage (unless collection is switched off); if reordering is on and more nodes remain than the reordering threshold, it reorders; if more nodes remain than the node limit, the overflow is flagged until it is asked for. Below the limits nothing of this happens. The next collection limit is twice the remaining nodes, at least the minimum and never beyond the node limit; what the interface sets is what is in force, and negative parameters change nothing.",
 ["histories", "configurations"], "all sequences of operations and settings", "Tests run with the default thresholds and rarely reach them.",
 ["calUtil.c", "calGC.c", "calBddManager.c", "cal.c"], [("threshold test", "CalBddPostProcessing"), ("limits", "Cal_BddManagerSetGCLimit, Cal_BddNodeLimit, Cal_BddManagerSetParameters")])

prop("C29", "Variable associations are exactly what was given until their last user releases",
 "An association created from a list of variables, or of variable and function pairs, maps exactly these variables (a later pair overrides an earlier one for the same variable) and no others. Asking for an association equal to an existing one returns the same identifier, no other identifier is shared, and an association lives until everyone who asked for it has released it. The temporary association is what its last initialisation gave plus the augmentations since, and nothing after it is quit. Every function an association maps to is referenced by it exactly while it does. The association in force is the one last set, or the temporary one after it is released or after an unknown identifier was set. No operation, collection, reordering, new variable or other association changes any of this.",
 ["inputs", "histories"], "all sequences of creating, sharing, releasing, setting, initialising, augmenting and quitting associations, mixed with new variables, collections and reorderings",
 "The suite creates one or two associations once, uses them immediately and never shares, overrides or releases them in the middle of anything.",
 ["calAssociation.c", "calBddManager.c", "calReorderBF.c", "calReorderDF.c"],
 [("creation, sharing and release", "Cal_AssociationInit, Cal_AssociationQuit"), ("temporary association", "Cal_TempAssociationInit, Cal_TempAssociationAugment, Cal_TempAssociationQuit"), ("association in force", "Cal_AssociationSetCurrent")])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
