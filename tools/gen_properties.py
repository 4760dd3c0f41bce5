#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long strings stay reviewable)."""
import json, os
S = "tree_iterators_rs/src/"
def P(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why, anchors=dict(files=[S+f for f in files], mechanism=[dict(name=n, where=S+w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=S+w) for n, m, w in state]
    d["anchors"]["hook_needed"] = None
    return d
TRAV = ["bfs_iterators/mod.rs","bfs_iterators/owned.rs","bfs_iterators/mut_borrow.rs","bfs_iterators/borrow.rs",
        "dfs_preorder_iterators/mod.rs","dfs_preorder_iterators/owned.rs","dfs_preorder_iterators/mut_borrow.rs","dfs_preorder_iterators/borrow.rs",
        "dfs_inorder_iterators/mod.rs","dfs_inorder_iterators/owned.rs","dfs_inorder_iterators/mut_borrow.rs","dfs_inorder_iterators/borrow.rs",
        "dfs_postorder_iterators/mod.rs","dfs_postorder_iterators/owned.rs","dfs_postorder_iterators/mut_borrow.rs","dfs_postorder_iterators/borrow.rs"]
LEAF = ["leaves_iterators/depth_first/mod.rs","leaves_iterators/depth_first/owned.rs","leaves_iterators/depth_first/mut_borrow.rs","leaves_iterators/depth_first/borrow.rs",
        "leaves_iterators/breadth_first/mod.rs","leaves_iterators/breadth_first/owned.rs","leaves_iterators/breadth_first/mut_borrow.rs","leaves_iterators/breadth_first/borrow.rs"]
ALEAF = ["leaves_iterators/ancestors_depth_first/mod.rs","leaves_iterators/ancestors_breadth_first/mod.rs"] + [f"leaves_iterators/ancestors_{k}_first/{o}.rs" for k in("depth","breadth") for o in ("owned","mut_borrow","borrow")]
PIPE = ["tree_iterators/mod.rs"]+[f"tree_iterators/{f}.rs" for f in ("map","map_path","prune","prune_path","prune_depth")]
CPIPE = ["tree_collection_iterators/mod.rs"]+[f"tree_collection_iterators/{f}.rs" for f in ("map","map_path","prune","prune_path","prune_depth","fold","fold_path","trees")]
L = []
L.append(P("C01","Suspended and interleaved traversals keep their exact order",
 "Every plain traversal (depth-first preorder, inorder for binary trees, postorder, and breadth-first; by value, by mutable reference or by shared reference) yields each node of the tree exactly once, in that traversal's documented order, and after the last node keeps answering that it is exhausted; skipping ahead, counting, folding and collecting see the same sequence, and size hints never promise more or fewer elements than really remain. This holds wherever the traversal is suspended and resumed, however its steps are interleaved with steps of other live traversals (over the same shared tree or other trees), and when another traversal is advanced from inside one of its calls into user-supplied node or child-iterator code.",
 ["schedules","histories","inputs"],"every tree shape, node/child-container implementation, ownership mode and order; every interleaving and nesting of steps of several live traversals",
 "Tests drain one iterator on one or two fixed trees of the library's own node types; they never suspend one traversal while stepping another, nest one inside a callback, or step past the end.",
 TRAV+["prelude.rs"],[("next() state machines","bfs_iterators/mod.rs"),("preorder stack","dfs_preorder_iterators/mod.rs"),("inorder right/item stacks","dfs_inorder_iterators/mod.rs"),("postorder stacks","dfs_postorder_iterators/mod.rs")],["values yielded by next()"]))
L.append(P("C02","Ancestor stacks are exact at every step of every traversal",
 "A traversal with ancestors attached yields the nodes in the same order as the plain traversal and, at every step, exposes exactly the values on the path from the root down to and including the current node, in that order. Values modified, replaced or exchanged through the exposed stack (by-value and by-mutable-reference traversals) are seen as the caller left them for as long as that node stays an ancestor, and this holds under suspension and under interleaving with other traversals.",
 ["schedules","histories","inputs"],"every tree, order, ownership mode, every history of steps and of writes through the exposed stack, under every interleaving with other traversals",
 "Tests compare the ancestor stacks of one fixed example tree per order, drained in one go, and never write through the stack and keep going.",
 TRAV,[("iterative-deepening value stack","bfs_iterators/mod.rs"),("traversal status stacks","dfs_inorder_iterators/mod.rs"),("ancestor streaming impls","dfs_postorder_iterators/mod.rs")],["slice exposed by the streaming iterator after each advance"]))
L.append(P("C03","Context reports the true path, depth, ancestors and children at every step",
 "A traversal with context attached yields the nodes in the plain traversal's order and at every step reports: the child-index path from the root (child slots for binary trees), a depth equal to that path's length below its root, the exact ancestor values including the current node, and, where children are exposed, exactly the children of the current node. This holds under suspension, interleaving with other traversals, and after values were modified, replaced or exchanged through the context.",
 ["schedules","histories","inputs"],"every tree (sparse binary slots included), order, ownership mode, every history of steps and context writes, under every interleaving",
 "Tests check contexts on one fixed example tree per order, drained in one go; no test suspends, interleaves or writes through a context mid-way on varied shapes.",
 TRAV+["tree_context.rs"],[("path bookkeeping","bfs_iterators/mod.rs"),("context streaming impls","dfs_preorder_iterators/mod.rs"),("TreeContext accessors","tree_context.rs")],["TreeContext path()/depth()/ancestors()/children() after each advance"]))
L.append(P("C04","Switching to leaves at any point yields exactly the remaining leaves",
 "Converting a traversal to leaves-only at any moment (before the first step, between any two steps, or after exhaustion) never panics and then yields exactly the leaves the traversal had not yet yielded, each once, in breadth-first order if the traversal was breadth-first and in left-to-right depth-first order otherwise.",
 ["histories","schedules","inputs"],"every tree, order, ownership mode and switch point, alone or interleaved with other traversals",
 "The existing mid-traversal tests exhaust the iterator before converting it, so no test converts at a genuinely intermediate point; the claim ranges over every point of every tree.",
 LEAF+TRAV,[("old/new traversal stack hand-over","leaves_iterators/depth_first/mod.rs"),("old/new queue hand-over","leaves_iterators/breadth_first/mod.rs")],["values yielded after .leaves()"]))
L.append(P("C05","Switching an ancestors traversal to leaves keeps leaves and ancestors exact",
 "Converting a traversal that has ancestors attached to leaves-only at any moment never panics and then yields exactly the leaves the traversal had not yet yielded, each once, in breadth-first or left-to-right depth-first order as appropriate, each with its exact root-to-leaf ancestor values.",
 ["histories","schedules","inputs"],"every tree, order, ownership mode and switch point, alone or interleaved with other traversals",
 "Existing tests convert either before the first step or after exhaustion; the intermediate switch points, where two partially consumed stacks must be merged, are never exercised.",
 ALEAF+TRAV,[("ancestor leaf stacks","leaves_iterators/ancestors_depth_first/mod.rs"),("ancestor leaf queue","leaves_iterators/ancestors_breadth_first/mod.rs")],["slices exposed after .attach_ancestors()...leaves()"]))
L.append(P("C06","Late attachment of ancestors or context is refused, early attachment is exact",
 "Attaching ancestors or context to a traversal (or context to a collection traversal) panics if and only if an element has already been yielded from it. The refusal leaves every other live traversal and every not-yet-visited node unharmed: each owned value is still dropped exactly once and borrowed trees remain intact and traversable.",
 ["histories","schedules"],"every tree, order, ownership mode and point of attachment, including after exhaustion",
 "Tests attach at most at one or two points of one tree; they do not observe what the refusal does to owned values or to other traversals.",
 TRAV+["collection_iterators.rs"],[("root-present checks","bfs_iterators/owned.rs"),("moved flag","dfs_inorder_iterators/owned.rs"),("collection attach check","collection_iterators.rs")],["panic or success of attach_ancestors()/attach_context()"]))
L.append(P("C07","Collection traversals equal per-tree traversals over any source history",
 "A traversal over a collection of trees (vector, slice, array, or any user-supplied source of trees; by value, mutable or shared reference) yields exactly the concatenation of the per-tree traversals in source order, whatever the source delivers and wherever it ends, including an empty source. With context attached, each path starts with the tree's index in the source followed by the node's path in its tree, and ancestors never mix values of different trees.",
 ["schedules","histories","inputs","fault_sequences"],"every forest (empty ones included), source implementation and early end of the source, order, ownership mode and interleaving",
 "Tests use forests of two or three fixed trees held in one container type and drain them in one go.",
 ["collection_iterators.rs","prelude.rs"]+TRAV,[("collection iterator macros","collection_iterators.rs"),("*_each methods","prelude.rs")],["values/contexts yielded by *_each iterators"]))
L.append(P("C08","Pipelines equal the reference transform and call closures as documented",
 "Any chain of map, prune and depth-limit stages ended by collecting, folding or stepping yields exactly what applying the stages to the tree (or to every tree of a collection) in order yields, an absent result when the root is pruned included. Each stage's closure is called exactly once for each node that reaches the stage, in preorder, never for a descendant of a node pruned before or at that stage; a fold closure is called once per remaining node after its children, with the children's results in child order (or in their left/right slots).",
 ["histories","inputs","programs"],"every tree and forest, every chain of stages, every (stateful) closure behaviour, every ownership mode, stepping pipelines manually or interleaved with other work",
 "Tests run single stages with one closure on one example tree; chains of several prune/map stages on varied shapes and the call history seen by stateful closures are not covered.",
 PIPE+CPIPE+["prelude.rs"],[("stage adapters","tree_iterators/mod.rs"),("collection stages","tree_collection_iterators/mod.rs"),("prune_current_subtree on the base iterator","dfs_preorder_iterators/owned.rs")],["closure call history","collected / folded results"]))
L.append(P("C09","Every path a pipeline reports is the node's position at that stage",
 "Whatever the chain of stages, the path given to a path-aware map, prune or fold closure, and the current path and depth reported after each pipeline step, equal the node's position in the tree produced by the preceding stages (by all stages for the current path): siblings removed by earlier prunes do not count for child-list trees, while child slots never shift for binary trees. For collections the path starts with the index of the tree, counted in the same way.",
 ["histories","inputs","programs"],"every tree and forest, every chain of stages and closure decisions, at every step",
 "Tests check paths only for single-stage pipelines over one example tree, and never after an earlier prune stage removed siblings.",
 PIPE+CPIPE,[("current_path per stage","tree_iterators/prune.rs"),("path passed to map_path","tree_iterators/map_path.rs"),("collection paths","tree_collection_iterators/prune_path.rs")],["paths seen by closures","current_path()/current_depth() after next()"]))
L.append(P("C10","Cancelling a traversal or pipeline at any point conserves every value",
 "Every value of a tree or forest handed over by value is dropped exactly once, either by the caller who received it or by the library, when the traversal, context, leaves or pipeline object is dropped before the first step, between any two steps, after exhaustion, or after conversion to another traversal; nothing is dropped twice, leaked or used after being dropped. Trees only borrowed are left with all their values alive and in place.",
 ["crash_points","histories","schedules"],"every tree, order, mode, adapter and cancellation point; every interleaving with other traversals",
 "Tests use plain integers, which cannot show a leak or a double drop, and always drain iterators to the end.",
 TRAV+LEAF+ALEAF+PIPE+CPIPE,[("MaybeUninit value cache","bfs_iterators/mod.rs"),("TreeNodeVecDeque","prelude.rs"),("postorder children hand-over","dfs_postorder_iterators/mut_borrow.rs")],["drop ledger of unique value tokens","allocator ledger"]))
L.append(P("C11","A panic in user code never corrupts memory or loses a value",
 "When user-supplied code (node accessor, child iterator, tree source, or pipeline closure) panics at any point inside a library call, unwinding leaves every owned value dropped exactly once and every borrowed tree intact. If the caller catches the panic and goes on using or drops the iterator, no value is yielded twice, no dropped or uninitialised value is exposed, and other live traversals still behave exactly as specified.",
 ["fault_sequences","crash_points","schedules"],"every callback site and every occurrence at which it panics, in every traversal, adapter and pipeline, with and without continued use afterwards",
 "No test injects a failing callback, and the set of (site, occurrence, history) triples is unbounded.",
 TRAV+LEAF+ALEAF+PIPE+CPIPE,[("raw reads of children","dfs_postorder_iterators/mut_borrow.rs"),("MaybeUninit value cache","bfs_iterators/mod.rs"),("children taken out during advance","dfs_preorder_iterators/mod.rs")],["drop ledger","allocator ledger","values exposed after the fault"]))
L.append(P("C12","Mutable traversals hand out each node's reference once and writes land there",
 "A traversal by mutable reference gives out, for each node exactly once, a reference to that very node's value; all references from one traversal may be kept and used together, and every write through them, through ancestor stacks, or through contexts is found in exactly that node afterwards, with the tree's shape unchanged. This holds when the traversal is suspended, cancelled, switched to leaves, or run over a collection, and writes made before a cancellation are kept.",
 ["histories","crash_points","schedules","inputs"],"every tree and forest, order, adapter, cancellation point and history of writes",
 "Tests add one to every integer of one tree with a fully drained traversal; they cannot see aliasing or a reference to the wrong node under suspension or cancellation.",
 [f for f in TRAV+LEAF+ALEAF if "mut_borrow" in f]+["prelude.rs"],[("mutable iterators","bfs_iterators/mut_borrow.rs"),("mutable node impls","prelude.rs")],["addresses of references handed out","marks found in the tree afterwards"]))
L.append(P("C13","Children edited through the context are what the traversal visits next",
 "In by-value and by-mutable-reference preorder and breadth-first traversals with context, replacing, adding, removing or reordering children of the current node (or of any node below it, reached through them) decides what is visited: every added subtree is visited in its place, no removed one is, and paths, ancestors and contexts of later nodes reflect the edited tree. In in-order by mutable reference the same holds for the right child; edits of what in-order or postorder has already passed do not disturb the rest of the traversal. By-mutable-reference edits are found in the tree afterwards, and removed subtrees or child references belong to the caller, who may go on using them while the traversal runs.",
 ["histories","schedules","inputs"],"every tree and every sequence of edits at every step, repeated edits of added subtrees included",
 "Tests perform one kind of edit at one step of one tree.",
 ["tree_context.rs","bfs_iterators/mod.rs","bfs_iterators/owned.rs","bfs_iterators/mut_borrow.rs","dfs_preorder_iterators/mod.rs","dfs_preorder_iterators/owned.rs","dfs_preorder_iterators/mut_borrow.rs","dfs_inorder_iterators/mut_borrow.rs","dfs_postorder_iterators/mut_borrow.rs"],[("children held in the context until the next advance","dfs_preorder_iterators/mod.rs"),("children queued on advance","bfs_iterators/mod.rs")],["contexts yielded after edits","final tree"]))
L.append(P("C14","Traversal is demand-driven: unvisited parts are never touched",
 "Breadth-first and preorder traversals (plain, with ancestors or context, over collections, and pipelines stepped or pruned) ask user code for a node's value and children only when the traversal reaches that node, never for a descendant of a pruned node, and never pull a later tree from a source before the earlier ones are finished; so any number of steps on an unbounded, lazily generated tree or source terminates. Each node is asked at most once per traversal.",
 ["histories","inputs","schedules"],"every lazily generated tree or source, bounded or not, every order listed, every number of steps",
 "Tests use fully materialised finite trees, so eager expansion is invisible to them.",
 ["bfs_iterators/mod.rs","dfs_preorder_iterators/mod.rs","collection_iterators.rs","tree_iterators/mod.rs","tree_collection_iterators/mod.rs","leaves_iterators/breadth_first/mod.rs"],[("queue of child iterators","bfs_iterators/mod.rs"),("stack of child iterators","dfs_preorder_iterators/mod.rs"),("collection pull","collection_iterators.rs")],["record of accessor calls and source pulls at user-supplied seams"]))
L.append(P("C15","Traversal, pipeline and lookup stack use does not grow with tree depth",
 "No traversal, ancestor/context/leaves adapter, pipeline or path lookup uses call-stack space that grows with the depth of the tree: arbitrarily deep trees are traversed, folded, mapped, pruned and looked into on a small fixed stack.",
 ["inputs","fault_sequences","configurations"],"every tree depth, order, mode, adapter and path length, including cancellation part-way, under a bounded stack",
 "Tests use trees a handful of levels deep; a recursive implementation passes them all.",
 TRAV+LEAF+ALEAF+PIPE+CPIPE,[("explicit stacks/queues","dfs_postorder_iterators/mod.rs"),("iterative fold/collect","tree_iterators/mod.rs")],["stack pointer at user-supplied seams","stack exhaustion of a bounded-stack thread"]))
L.append(P("C16","Paths recorded during any traversal address the same node later",
 "Every path reported by a context traversal, at any moment and over a single tree or a collection, fetches exactly that node when later given to path lookup by shared reference, mutable reference or value, on the same tree or collection; mutations made through a looked-up node are seen by later traversals. A path that leaves the tree, recorded before the tree was edited, simply too long, or (for a collection, where the first index chooses the tree) empty, yields absence and never panics or touches another node.",
 ["histories","inputs"],"every tree and forest and every history of traversals, edits and lookups by every ownership mode",
 "Tests look up a few literal paths in one tree; agreement of two independent mechanisms over all histories is not sampled.",
 ["prelude.rs","bfs_iterators/mod.rs","dfs_preorder_iterators/mod.rs","collection_iterators.rs"],[("at_path","prelude.rs"),("path bookkeeping","dfs_preorder_iterators/mod.rs")],["node returned by at_path/at_path_mut/at_path_ref"]))
L.append(P("C17","Serialised trees survive stream faults: equal on success, error otherwise",
 "A tree written to a stream and read back through a stream that delivers arbitrary short reads and interruptions equals the original in shape and values. When the stream is truncated, fails, or is corrupted so that a required part is missing, reading returns an error instead of a tree, and every value created on the way is dropped exactly once.",
 ["fault_sequences","inputs"],"every tree of either kind and every sequence of short transfers, interruptions, errors and truncation points",
 "Tests round-trip at most a fixed tree through an in-memory string that never fails.",
 ["prelude.rs"],[("derived Serialize/Deserialize","prelude.rs")],["result of writing to and reading from a simulated stream"]))
L.append(P("C18","Deep copies and comparisons of trees are structural",
 "Cloning a tree, or cloning a tree of references into an owned tree, yields a structurally equal tree, and equality and defaulting are structural. A traversal context cloned part-way through a traversal keeps showing exactly the path, values and children that were exposed when it was cloned, whatever the traversal does afterwards.",
 ["inputs"],"every tree",
 "Tests sample a few trees; the claim is over all of them.",
 ["prelude.rs"],[("derived Clone/PartialEq and cloned()","prelude.rs")],["result of clone/cloned/eq"]))
L.append(P("C19","The crate builds and works without the standard library",
 "The library, with or without its optional feature, builds with and needs only the core and alloc libraries, and every traversal, conversion, pipeline and lookup behaves identically with the optional feature on or off and with or without the standard library around it.",
 ["configurations"],"every feature configuration and target with an allocator",
 "Tests run in one configuration, on top of the standard library, without the optional feature.",
 ["lib.rs"],[("no_std attribute","lib.rs")],["event logs of equal seeds in two configurations","link and run without the standard library"]))
L.append(P("C20","Traversals hold what is pending, not what was already visited",
 "Between any two steps, the memory and the by-value values held by a traversal (plain, with ancestors or context, leaves-only) or by a stepped pipeline are bounded by what is still pending, however many nodes or trees have been visited: a fixed amount per level of the tree for depth-first traversals and pipelines; for breadth-first ones a fixed amount per node of the levels being visited and, when ancestors or context are attached, per ancestor of those nodes and child of such an ancestor; plus the part of a tree or collection handed over by value that has not been visited yet. What was yielded, passed over on the way to a leaf, or skipped as pruned is given up as the traversal proceeds, not when it ends.",
 ["histories","inputs"],"every tree and forest, lazily delivered or not, order, ownership mode, adapter, conversion point and number of steps",
 "Tests use trees of a handful of nodes and values without identity, so neither a growing queue nor a value kept until the end can be seen.",
 TRAV+LEAF+ALEAF+PIPE+CPIPE,[("queue of child iterators","bfs_iterators/mod.rs"),("TreeNodeVecDeque cache","bfs_iterators/mod.rs"),("stack of child iterators","dfs_preorder_iterators/mod.rs"),("current tree of a collection","collection_iterators.rs")],["bytes allocated inside library calls and not freed, at every step","number of values alive at every step"]))
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out,"w") as f:
    for p in L:
        assert len(p["title"])<=80, (p["id"], len(p["title"]))
        f.write(json.dumps(p)+"\n")
print(len(L))
