From 6978e50621e0a4db5bb2980a3a9310ebc3e05fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 001/104] fix: inclusive choice in the basic playout of process
 trees executes a non-empty subset of its children and closes

---
 pm4py/objects/process_tree/semantics.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pm4py/objects/process_tree/semantics.py b/pm4py/objects/process_tree/semantics.py
index 3bfa691..05a4430 100644
--- a/pm4py/objects/process_tree/semantics.py
+++ b/pm4py/objects/process_tree/semantics.py
@@ -175,10 +175,16 @@ def execute_enabled(enabled, open, closed, execution_sequence=None):
             execution_sequence.append((c, pt_st.State.ENABLED))
         elif vertex.operator is pt_opt.Operator.OR:
             some_children = [c for c in vertex.children if random.random() < 0.5]
+            if not some_children:
+                # at least one child of an inclusive choice needs to be executed
+                some_children = [random.choice(vertex.children)]
             enabled |= set(some_children)
-            for x in some_children:
-                if x in closed:
-                    closed.remove(x)
+            for x in vertex.children:
+                if x in some_children:
+                    closed.discard(x)
+                else:
+                    # the children that are not chosen do not prevent the closing of the vertex
+                    closed.add(x)
             map(lambda c: execution_sequence.append((c, pt_st.State.ENABLED)), some_children)
         elif vertex.operator is pt_opt.Operator.INTERLEAVING:
             random.shuffle(vertex.children)
-- 
2.43.0


From 3acf61bba58466fdbdfb24f82c90fe991b42f43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 002/104] fix: bottom-up visit of process trees distinguishes
 nodes by identity

---
 pm4py/objects/process_tree/utils/bottomup.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pm4py/objects/process_tree/utils/bottomup.py b/pm4py/objects/process_tree/utils/bottomup.py
index df0b9e1..1243216 100644
--- a/pm4py/objects/process_tree/utils/bottomup.py
+++ b/pm4py/objects/process_tree/utils/bottomup.py
@@ -211,26 +211,27 @@ def get_bottomup_nodes(tree, parameters=None):
         parameters = {}
 
     to_visit = [tree]
-    all_nodes = set()
+    all_nodes = []
     while len(to_visit) > 0:
         n = to_visit.pop(0)
-        all_nodes.add(n)
+        all_nodes.append(n)
         for child in n.children:
             to_visit.append(child)
-    # starts to visit the tree from the leafs
+    # starts from the leafs, then adds iteratively the parents (nodes are distinguished by identity, since
+    # different parts of the tree may be structurally equal)
     bottomup = [x for x in all_nodes if len(x.children) == 0]
-    # then add iteratively the parent
+    added = set(id(x) for x in bottomup)
     i = 0
     while i < len(bottomup):
         parent = bottomup[i].parent
-        if parent is not None and parent not in bottomup:
+        if parent is not None and id(parent) not in added:
             is_ok = True
             for child in parent.children:
-                if not child in bottomup:
+                if id(child) not in added:
                     is_ok = False
                     break
             if is_ok:
+                added.add(id(parent))
                 bottomup.append(parent)
         i = i + 1
-
     return bottomup
-- 
2.43.0


From f4342ede569ce3ec34411c8539e864817fcb3453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 003/104] fix: extensive playout of process trees respects the
 trace length bounds also for choices and leafs at the root

---
 .../algo/simulation/playout/process_tree/variants/extensive.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/simulation/playout/process_tree/variants/extensive.py b/pm4py/algo/simulation/playout/process_tree/variants/extensive.py
index a47df0b..7846f13 100644
--- a/pm4py/algo/simulation/playout/process_tree/variants/extensive.py
+++ b/pm4py/algo/simulation/playout/process_tree/variants/extensive.py
@@ -327,7 +327,7 @@ def apply(tree: ProcessTree, parameters : Optional[Dict[Union[str, Parameters],
     for i in range(len(bottomup)):
         get_playout(bottomup[i], playout_dictio, min_trace_length, max_trace_length, max_loop_occ, min_rem_dict,
                     max_rem_dict, max_limit_num_traces)
-    tree_playout_traces = playout_dictio[tree][TRACES]
+    tree_playout_traces = set(x for x in playout_dictio[tree][TRACES] if min_trace_length <= len(x) <= max_trace_length)
 
     if return_set_strings:
         return tree_playout_traces
-- 
2.43.0


From 7718eb6507b3bb8c26889c1dc5a0ff47880741c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 004/104] fix: top-bottom playout supports inclusive choices
 and leaves the interleaved children of the given tree in place

---
 .../playout/process_tree/variants/topbottom.py   | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pm4py/algo/simulation/playout/process_tree/variants/topbottom.py b/pm4py/algo/simulation/playout/process_tree/variants/topbottom.py
index 8aeabdf..08632b2 100644
--- a/pm4py/algo/simulation/playout/process_tree/variants/topbottom.py
+++ b/pm4py/algo/simulation/playout/process_tree/variants/topbottom.py
@@ -140,9 +140,11 @@ def get_ex_seq(tree):
             ret = ret + get_ex_seq(child)
         return ret
     elif tree.operator is Operator.INTERLEAVING:
-        random.shuffle(tree.children)
+        # shuffles a copy, in order to not alter the given process tree
+        children = list(tree.children)
+        random.shuffle(children)
         ret = []
-        for child in tree.children:
+        for child in children:
             ret = ret + get_ex_seq(child)
         return ret
     elif tree.operator is Operator.LOOP:
@@ -156,11 +158,17 @@ def get_ex_seq(tree):
                 ret = ret + get_ex_seq(tree.children[1])
                 cont = True
         return ret
-    elif tree.operator is Operator.PARALLEL:
+    elif tree.operator is Operator.PARALLEL or tree.operator is Operator.OR:
         ret = []
         children_traces = []
         list_choices = []
-        for index, child in enumerate(tree.children):
+        children = tree.children
+        if tree.operator is Operator.OR:
+            # inclusive choice: executes concurrently a non-empty subset of the children
+            children = [child for child in tree.children if random.random() < 0.5]
+            if not children:
+                children = [random.choice(tree.children)]
+        for index, child in enumerate(children):
             trace = get_ex_seq(child)
             children_traces.append(trace)
             list_choices += [index] * len(trace)
-- 
2.43.0


From ae713209c4fb7c068c5f4a5eb366056f02b3cb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:39 +0000
Subject: [PATCH 005/104] fix: DFG playout tolerates activities without
 outgoing arcs that are not end activities

---
 pm4py/algo/simulation/playout/dfg/variants/classic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/simulation/playout/dfg/variants/classic.py b/pm4py/algo/simulation/playout/dfg/variants/classic.py
index 3a445d6..2b238be 100644
--- a/pm4py/algo/simulation/playout/dfg/variants/classic.py
+++ b/pm4py/algo/simulation/playout/dfg/variants/classic.py
@@ -134,7 +134,7 @@ def get_traces(dfg, start_activities, end_activities, parameters=None):
         last_act = trace[1][-1]
         prob = trace[0]
 
-        for new_act in node_transition_probabilities[last_act]:
+        for new_act in node_transition_probabilities.get(last_act, {}):
             if trace_counter[new_act] < max_no_occ_per_activity:
                 prob_new_act = node_transition_probabilities[last_act][new_act]
                 if new_act is None:
-- 
2.43.0


From f0873ec9b60912f58ac40de5198288a4fa164f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 006/104] fix: process tree to POWL: interleaving is not
 parallelism

---
 .../conversion/process_tree/variants/to_powl.py       | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pm4py/objects/conversion/process_tree/variants/to_powl.py b/pm4py/objects/conversion/process_tree/variants/to_powl.py
index cf4b034..4ca9b36 100644
--- a/pm4py/objects/conversion/process_tree/variants/to_powl.py
+++ b/pm4py/objects/conversion/process_tree/variants/to_powl.py
@@ -16,9 +16,17 @@
 '''
 from pm4py.objects.process_tree.obj import ProcessTree, Operator as PTOperator
 from pm4py.objects.powl.obj import POWL, StrictPartialOrder, OperatorPOWL, Transition, SilentTransition
+from itertools import permutations
 from typing import Optional, Dict, Any
 
 
+def _sequence(nodes) -> POWL:
+    powl = StrictPartialOrder(nodes=nodes)
+    for i in range(len(nodes)-1):
+        powl.order.add_edge(nodes[i], nodes[i+1])
+    return powl
+
+
 def apply_recursive(tree: ProcessTree, rec_depth=0) -> POWL:
     """
     Internal method
@@ -39,6 +47,9 @@ def apply_recursive(tree: ProcessTree, rec_depth=0) -> POWL:
         powl = OperatorPOWL(PTOperator.XOR, nodes)
     elif tree.operator == PTOperator.LOOP:
         powl = OperatorPOWL(PTOperator.LOOP, nodes)
+    elif tree.operator == PTOperator.INTERLEAVING and len(nodes) > 1:
+        # the children are executed in any order, but without overlapping
+        powl = OperatorPOWL(PTOperator.XOR, [_sequence([n.copy() for n in perm]) for perm in permutations(nodes)])
     else:
         powl = StrictPartialOrder(nodes=nodes)
 
-- 
2.43.0


From 55d9cc955f777bed68845c6c52f00eceac2acd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 007/104] fix: WF-net to process tree: single-transition nets

---
 pm4py/objects/conversion/wf_net/variants/to_process_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/conversion/wf_net/variants/to_process_tree.py b/pm4py/objects/conversion/wf_net/variants/to_process_tree.py
index 42f1b61..47aaf5d 100644
--- a/pm4py/objects/conversion/wf_net/variants/to_process_tree.py
+++ b/pm4py/objects/conversion/wf_net/variants/to_process_tree.py
@@ -358,7 +358,7 @@ def apply(net, im, fm, parameters=None):
         return grouped_net
     else:
         if len(grouped_net.transitions) == 1:
-            pt_str = list(grouped_net.transitions)[0].label
+            pt_str = generate_label_for_transition(list(grouped_net.transitions)[0])
             pt = parse(pt_str)
             ret = pt_util.fold(pt) if fold else pt
             tree_sort(ret)
-- 
2.43.0


From f6200989cde2c273cee77e9177f7feb5d8c0f583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 008/104] fix: DFG to Petri net (activity defines place):
 activities occurring only as start/end

---
 .../dfg/variants/to_petri_net_activity_defines_place.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/conversion/dfg/variants/to_petri_net_activity_defines_place.py b/pm4py/objects/conversion/dfg/variants/to_petri_net_activity_defines_place.py
index 9b3d699..49debdc 100644
--- a/pm4py/objects/conversion/dfg/variants/to_petri_net_activity_defines_place.py
+++ b/pm4py/objects/conversion/dfg/variants/to_petri_net_activity_defines_place.py
@@ -50,7 +50,7 @@ def apply(dfg, parameters=None):
                                                       dfg))
     end_activities = exec_utils.get_param_value(Parameters.END_ACTIVITIES, parameters,
                                                 dfg_utils.infer_end_activities(dfg))
-    activities = dfg_utils.get_activities_from_dfg(dfg)
+    activities = set(dfg_utils.get_activities_from_dfg(dfg)).union(start_activities).union(end_activities)
 
     net = PetriNet("")
     im = Marking()
-- 
2.43.0


From 4b998f2c364071432fe33904d302c535d7d955a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:10 +0000
Subject: [PATCH 009/104] fix: trace-based tree reduction with structurally
 equal sub-trees

---
 pm4py/algo/reduction/process_tree/variants/tree_tr_based.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/reduction/process_tree/variants/tree_tr_based.py b/pm4py/algo/reduction/process_tree/variants/tree_tr_based.py
index fdcc6de..fa84855 100644
--- a/pm4py/algo/reduction/process_tree/variants/tree_tr_based.py
+++ b/pm4py/algo/reduction/process_tree/variants/tree_tr_based.py
@@ -72,7 +72,8 @@ def apply(tree: ProcessTree, trace: Trace, parameters: Optional[Dict[Any, Any]]
 
     bottomup_nodes = bottomup.get_bottomup_nodes(tree)
     fps = footprints.get_all_footprints(tree)
-    fps = {id(x): y for x, y in fps.items()}
+    # equal sub-trees share the same entry of the footprints dictionary
+    fps = {id(x): fps[x] for x in bottomup_nodes}
 
     return reduce(bottomup_nodes, fps, activities)
 
-- 
2.43.0


From 515d4a56a324ed81728e08f9656dec18e8224ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:10 +0000
Subject: [PATCH 010/104] fix: removal of invisible transitions keeps arc
 weights and skips self loops

---
 pm4py/objects/petri_net/utils/reduction.py | 37 +++++++++++++++++-----
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/pm4py/objects/petri_net/utils/reduction.py b/pm4py/objects/petri_net/utils/reduction.py
index 84a1cea..d1b8aa0 100644
--- a/pm4py/objects/petri_net/utils/reduction.py
+++ b/pm4py/objects/petri_net/utils/reduction.py
@@ -20,6 +20,27 @@ import itertools
 from itertools import combinations, chain
 
 
+def __is_intermediate_place(place):
+    """
+    Checks if a place only passes tokens from one transition to one (other) transition
+    """
+    if len(place.in_arcs) == 1 and len(place.out_arcs) == 1:
+        in_arc, out_arc = list(place.in_arcs)[0], list(place.out_arcs)[0]
+        return in_arc.source != out_arc.target and in_arc.weight == out_arc.weight
+    return False
+
+
+def __add_or_increase_arc(source, target, net, weight):
+    """
+    Adds an arc with the given weight (or increases the weight of the arc already connecting the two nodes)
+    """
+    for arc in source.out_arcs:
+        if arc.target == target and get_arc_type(arc) is None:
+            arc.weight = arc.weight + weight
+            return
+    add_arc_from_to(source, target, net, weight=weight)
+
+
 def reduce_single_entry_transitions(net):
     """
     Reduces the number of the single entry transitions in the Petri net
@@ -36,13 +57,13 @@ def reduce_single_entry_transitions(net):
         for i in range(len(single_entry_transitions)):
             t = single_entry_transitions[i]
             source_place = list(t.in_arcs)[0].source
-            target_places = [a.target for a in t.out_arcs]
-            if len(source_place.in_arcs) == 1 and len(source_place.out_arcs) == 1:
+            target_places = [(a.target, a.weight) for a in t.out_arcs]
+            if __is_intermediate_place(source_place):
                 source_transition = list(source_place.in_arcs)[0].source
                 remove_transition(net, t)
                 remove_place(net, source_place)
-                for p in target_places:
-                    add_arc_from_to(source_transition, p, net)
+                for p, weight in target_places:
+                    __add_or_increase_arc(source_transition, p, net, weight)
                 cont = True
                 break
     return net
@@ -64,13 +85,13 @@ def reduce_single_exit_transitions(net):
         for i in range(len(single_exit_transitions)):
             t = single_exit_transitions[i]
             target_place = list(t.out_arcs)[0].target
-            source_places = [a.source for a in t.in_arcs]
-            if len(target_place.in_arcs) == 1 and len(target_place.out_arcs) == 1:
+            source_places = [(a.source, a.weight) for a in t.in_arcs]
+            if __is_intermediate_place(target_place):
                 target_transition = list(target_place.out_arcs)[0].target
                 remove_transition(net, t)
                 remove_place(net, target_place)
-                for p in source_places:
-                    add_arc_from_to(p, target_transition, net)
+                for p, weight in source_places:
+                    __add_or_increase_arc(p, target_transition, net, weight)
                 cont = True
                 break
     return net
-- 
2.43.0


From e3db9fae065ac55e1b499046a2f2822b5fd2e1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:10 +0000
Subject: [PATCH 011/104] fix: implicit places: use the effect of transitions
 and reset the constraints per place

---
 pm4py/objects/petri_net/utils/murata.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pm4py/objects/petri_net/utils/murata.py b/pm4py/objects/petri_net/utils/murata.py
index a6ae185..c157ee5 100644
--- a/pm4py/objects/petri_net/utils/murata.py
+++ b/pm4py/objects/petri_net/utils/murata.py
@@ -47,13 +47,14 @@ def apply_reduction(net: PetriNet, im: Marking, fm: Marking) -> Tuple[PetriNet,
     fm
         Final marking
     """
-    Aeq = []
-    Aub = []
-    beq = []
-    bub = []
     places = sorted(list(net.places), key=lambda x: x.name)
     redundant = set()
     for place in places:
+        Aeq = []
+        Aub = []
+        beq = []
+        bub = []
+
         # first constraint
         constraint = [0] * (len(net.places) + 1)
         for p2 in im:
@@ -92,6 +93,14 @@ def apply_reduction(net: PetriNet, im: Marking, fm: Marking) -> Tuple[PetriNet,
                         constraint[places.index(p2)] = -arc.weight
                     else:
                         constraint[places.index(p2)] = arc.weight
+            # the effect of the transition also includes the tokens it consumes
+            for arc in trans.in_arcs:
+                p2 = arc.source
+                if p2 not in redundant:
+                    if p2 == place:
+                        constraint[places.index(p2)] += arc.weight
+                    else:
+                        constraint[places.index(p2)] -= arc.weight
             Aub.append(constraint)
             bub.append(0)
 
-- 
2.43.0


From f9a1f22e5a2fa62dbefb72a2774c159ca96eecb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:12 +0000
Subject: [PATCH 012/104] fix: workflow-net and soundness checks distinguish
 places and transitions sharing a name

---
 pm4py/algo/analysis/woflan/algorithm.py                | 10 +++++-----
 pm4py/algo/analysis/workflow_net/variants/petri_net.py | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pm4py/algo/analysis/woflan/algorithm.py b/pm4py/algo/analysis/woflan/algorithm.py
index c123334..f3224e4 100644
--- a/pm4py/algo/analysis/woflan/algorithm.py
+++ b/pm4py/algo/analysis/woflan/algorithm.py
@@ -350,13 +350,13 @@ def step_2(woflan_object, return_asap_when_unsound=False):
         G = nx_utils.DiGraph()
         while len(still_need_to_discover) > 0:
             element = still_need_to_discover.pop()
-            G.add_node(element.name)
+            G.add_node(element)
             for in_arc in element.in_arcs:
-                G.add_node(in_arc.source.name)
-                G.add_edge(in_arc.source.name, element.name)
+                G.add_node(in_arc.source)
+                G.add_edge(in_arc.source, element)
             for out_arc in element.out_arcs:
-                G.add_node(out_arc.target.name)
-                G.add_edge(element.name, out_arc.target.name)
+                G.add_node(out_arc.target)
+                G.add_edge(element, out_arc.target)
         return G
 
     s_c_net, diagnostic_messages = short_circuit_petri_net(woflan_object.get_net(),
diff --git a/pm4py/algo/analysis/workflow_net/variants/petri_net.py b/pm4py/algo/analysis/workflow_net/variants/petri_net.py
index 72ea932..8fb1ee5 100644
--- a/pm4py/algo/analysis/workflow_net/variants/petri_net.py
+++ b/pm4py/algo/analysis/workflow_net/variants/petri_net.py
@@ -88,13 +88,13 @@ def apply(net: PetriNet, parameters: Optional[Dict[Any, Any]] = None) -> bool:
     graph = nx_utils.DiGraph()
     while len(nodes) > 0:
         element = nodes.pop()
-        graph.add_node(element.name)
+        graph.add_node(element)
         for in_arc in element.in_arcs:
-            graph.add_node(in_arc.source.name)
-            graph.add_edge(in_arc.source.name, element.name)
+            graph.add_node(in_arc.source)
+            graph.add_edge(in_arc.source, element)
         for out_arc in element.out_arcs:
-            graph.add_node(out_arc.target.name)
-            graph.add_edge(element.name, out_arc.target.name)
+            graph.add_node(out_arc.target)
+            graph.add_edge(element, out_arc.target)
     if nx_utils.is_strongly_connected(graph):
         return True
     else:
-- 
2.43.0


From 746bb68a2afab97a1b5ed9820d73dfb050dfa661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:12 +0000
Subject: [PATCH 013/104] fix: a net that is not covered by S-components is not
 necessarily unsound

---
 pm4py/algo/analysis/woflan/algorithm.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pm4py/algo/analysis/woflan/algorithm.py b/pm4py/algo/analysis/woflan/algorithm.py
index f3224e4..6e43f08 100644
--- a/pm4py/algo/analysis/woflan/algorithm.py
+++ b/pm4py/algo/analysis/woflan/algorithm.py
@@ -398,8 +398,6 @@ def step_3(woflan_object, return_asap_when_unsound=False):
         if woflan_object.print_diagnostics:
             print('The following places are not covered by an s-component: {}.'.format(
                 woflan_object.get_uncovered_places_s_component()))
-        if return_asap_when_unsound:
-            return False
         return step_4(woflan_object, return_asap_when_unsound=return_asap_when_unsound)
 
 
-- 
2.43.0


From 2dc6c10245411edd120e6d97df663eae73386d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:12 +0000
Subject: [PATCH 014/104] fix: place invariants of woflan consider arc weights

---
 .../algo/analysis/woflan/place_invariants/place_invariants.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/analysis/woflan/place_invariants/place_invariants.py b/pm4py/algo/analysis/woflan/place_invariants/place_invariants.py
index d730416..b7abbb7 100644
--- a/pm4py/algo/analysis/woflan/place_invariants/place_invariants.py
+++ b/pm4py/algo/analysis/woflan/place_invariants/place_invariants.py
@@ -41,10 +41,10 @@ def compute_place_invariants(net):
             t = transition_list[i]
             for in_arc in t.in_arcs:
                 # arcs that go to transition
-                C[place_list.index(in_arc.source), i] -= 1
+                C[place_list.index(in_arc.source), i] -= in_arc.weight
             for out_arc in t.out_arcs:
                 # arcs that lead away from transition
-                C[place_list.index(out_arc.target), i] += 1
+                C[place_list.index(out_arc.target), i] += out_arc.weight
             i += 1
         return C
 
-- 
2.43.0


From 49226c7811f304c6a75b77f469bae89c3eb498ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:51 +0000
Subject: [PATCH 015/104] fix: PTML export and import support the interleaving
 operator

---
 pm4py/objects/process_tree/exporter/variants/ptml.py | 2 ++
 pm4py/objects/process_tree/importer/variants/ptml.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/pm4py/objects/process_tree/exporter/variants/ptml.py b/pm4py/objects/process_tree/exporter/variants/ptml.py
index b15871d..19cf711 100644
--- a/pm4py/objects/process_tree/exporter/variants/ptml.py
+++ b/pm4py/objects/process_tree/exporter/variants/ptml.py
@@ -124,6 +124,8 @@ def export_ptree_tree(tree, parameters=None):
                 child = etree.SubElement(processtree, "or")
             elif node.operator is Operator.LOOP:
                 child = etree.SubElement(processtree, "xorLoop")
+            elif node.operator is Operator.INTERLEAVING:
+                child = etree.SubElement(processtree, "interleaving")
             child.set("name", "")
         child.set("id", nk)
 
diff --git a/pm4py/objects/process_tree/importer/variants/ptml.py b/pm4py/objects/process_tree/importer/variants/ptml.py
index e672bed..afe6c50 100644
--- a/pm4py/objects/process_tree/importer/variants/ptml.py
+++ b/pm4py/objects/process_tree/importer/variants/ptml.py
@@ -132,6 +132,9 @@ def import_tree_from_xml_object(root, parameters=None):
                 elif tag == "xorLoop":
                     operator = Operator.LOOP
                     label = None
+                elif tag == "interleaving":
+                    operator = Operator.INTERLEAVING
+                    label = None
                 elif tag == "or":
                     operator = Operator.OR
                     label = None
-- 
2.43.0


From e884e923064a49ab14fb7c24d7002596bec34192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:51 +0000
Subject: [PATCH 016/104] fix: DFG exporter lists the activities that occur
 only as start or end activity

---
 pm4py/objects/dfg/exporter/variants/classic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/dfg/exporter/variants/classic.py b/pm4py/objects/dfg/exporter/variants/classic.py
index e7bf5f0..7346391 100644
--- a/pm4py/objects/dfg/exporter/variants/classic.py
+++ b/pm4py/objects/dfg/exporter/variants/classic.py
@@ -60,7 +60,7 @@ def export_line_by_line(dfg, parameters=None):
         raise Exception(
             "error: impossible to determine automatically the end activities from the DFG. Please specify them manually through the END_ACTIVITIES parameter")
 
-    activities = list(set(x[0] for x in dfg).union(set(x[1] for x in dfg)))
+    activities = list(set(x[0] for x in dfg).union(set(x[1] for x in dfg)).union(start_activities).union(end_activities))
 
     yield "%d\n" % (len(activities))
     for act in activities:
-- 
2.43.0


From b024c2d3b45c0f24aaaa0c169918c1f947fe14e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 017/104] fix: serialize accepts reset and inhibitor nets

---
 pm4py/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/utils.py b/pm4py/utils.py
index 92f72a1..f5ef1e0 100644
--- a/pm4py/utils.py
+++ b/pm4py/utils.py
@@ -239,7 +239,7 @@ def serialize(*args) -> Tuple[str, bytes]:
         buffer = BytesIO()
         args[0].to_parquet(buffer)
         return (constants.AvailableSerializations.DATAFRAME.value, buffer.getvalue())
-    elif len(args) == 3 and type(args[0]) is PetriNet:
+    elif len(args) == 3 and isinstance(args[0], PetriNet):
         from pm4py.objects.petri_net.exporter import exporter as petri_exporter
         return (constants.AvailableSerializations.PETRI_NET.value, petri_exporter.serialize(*args))
     elif type(args[0]) is ProcessTree:
-- 
2.43.0


From 5593753a82a61e2b35ac7c8bf836667283275305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 018/104] fix: PTML import keeps the exit child of a loop at
 its position

---
 pm4py/objects/process_tree/importer/variants/ptml.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pm4py/objects/process_tree/importer/variants/ptml.py b/pm4py/objects/process_tree/importer/variants/ptml.py
index afe6c50..596ef83 100644
--- a/pm4py/objects/process_tree/importer/variants/ptml.py
+++ b/pm4py/objects/process_tree/importer/variants/ptml.py
@@ -155,6 +155,7 @@ def import_tree_from_xml_object(root, parameters=None):
     # make sure that .PTML files having loops with 3 children are imported
     # into the PM4Py process tree structure
     # we want loops to have two children
+    nodes_root = nodes[root]
     for node in nodes.values():
         if node.operator == Operator.LOOP and len(node.children) == 3:
             if not (node.children[2].operator is None and node.children[2].label is None):
@@ -166,10 +167,13 @@ def import_tree_from_xml_object(root, parameters=None):
                 new_parent_node.children.append(node.children[2])
                 if parent_node is not None:
                     new_parent_node.parent = parent_node
-                    del parent_node.children[parent_node.children.index(node)]
-                    parent_node.children.append(new_parent_node)
+                    # the nodes are compared by identity, as equal subtrees can occur several times
+                    idx = [i for i, c in enumerate(parent_node.children) if c is node][0]
+                    parent_node.children[idx] = new_parent_node
+                elif nodes[root] is node:
+                    nodes_root = new_parent_node
             del node.children[2]
 
-    root = nodes[root]
+    root = nodes_root
     tree_sort(root)
     return root
-- 
2.43.0


From ba51ec7f8293855fce06f23afd33191adb95b053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 019/104] fix: BPMN layout supports self-loops

---
 pm4py/objects/bpmn/layout/variants/graphviz.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pm4py/objects/bpmn/layout/variants/graphviz.py b/pm4py/objects/bpmn/layout/variants/graphviz.py
index c889a3f..6993220 100644
--- a/pm4py/objects/bpmn/layout/variants/graphviz.py
+++ b/pm4py/objects/bpmn/layout/variants/graphviz.py
@@ -196,6 +196,10 @@ def apply(bpmn_graph, parameters=None):
         diff_x = abs(x_trg - x_src)
         diff_y = abs(y_src - y_trg)
 
+        if diff_x == 0 and diff_y == 0:
+            # self-loop: avoid the division by zero in the assignment of the endpoints
+            diff_x = 1
+
         if not (x_src, y_src) in outgoing_edges:
             outgoing_edges[(x_src, y_src)] = {}
         outgoing_edges[(x_src, y_src)][(x_trg, y_trg)] = {EndpointDirection.RIGHT: 0.0, EndpointDirection.LEFT: 0.0,
-- 
2.43.0


From 972031c70dab00380b7ea39d2a1f2dce1bd0b0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 020/104] fix: parse the text of a process tree made of a
 single activity

---
 pm4py/objects/process_tree/utils/generic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pm4py/objects/process_tree/utils/generic.py b/pm4py/objects/process_tree/utils/generic.py
index 66b0193..aa54db1 100644
--- a/pm4py/objects/process_tree/utils/generic.py
+++ b/pm4py/objects/process_tree/utils/generic.py
@@ -226,6 +226,10 @@ def parse(string_rep):
     """
     depth_cache = dict()
     depth = 0
+    stripped_rep = string_rep.strip()
+    if stripped_rep and stripped_rep[-1] not in (")", "'") and stripped_rep not in ("tau", "\u03c4"):
+        # a tree made of a single activity is represented by the (unquoted) label of the activity
+        return pt.ProcessTree(label=string_rep)
     return parse_recursive(string_rep, depth_cache, depth)
 
 
-- 
2.43.0


From 4be3d2212914928b6b5c571e10cf88aa18b58d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 021/104] fix: POWL parser distinguishes names contained in
 each other and names starting with an operator

---
 pm4py/objects/powl/parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pm4py/objects/powl/parser.py b/pm4py/objects/powl/parser.py
index 7ad3e34..950409e 100644
--- a/pm4py/objects/powl/parser.py
+++ b/pm4py/objects/powl/parser.py
@@ -71,7 +71,7 @@ def parse_powl_model_string(powl_string, level=0) -> POWL:
                 nodes.append(N)
                 i = i + 1
 
-            pattern = '(' + '|'.join(map(re.escape, list(nodes_dict))) + ')'
+            pattern = '(' + '|'.join(map(re.escape, sorted(nodes_dict, key=len, reverse=True))) + ')'
 
             PO = StrictPartialOrder(nodes=nodes)
 
@@ -88,7 +88,7 @@ def parse_powl_model_string(powl_string, level=0) -> POWL:
 
                 i = i + 1
 
-        elif indented_str_list[0].startswith('X'):
+        elif re.match(r'X\s*\(', indented_str_list[0]):
             i = 1
             while i < len(indented_str_list):
                 if indented_str_list[i] == ')':
@@ -97,7 +97,7 @@ def parse_powl_model_string(powl_string, level=0) -> POWL:
                 nodes.append(N)
                 i = i + 1
             PO = OperatorPOWL(PTOperator.XOR, nodes)
-        elif indented_str_list[0].startswith('*'):
+        elif re.match(r'\*\s*\(', indented_str_list[0]):
             i = 1
             while i < len(indented_str_list):
                 if indented_str_list[i] == ')':
@@ -106,7 +106,7 @@ def parse_powl_model_string(powl_string, level=0) -> POWL:
                 nodes.append(N)
                 i = i + 1
             PO = OperatorPOWL(PTOperator.LOOP, nodes)
-        elif indented_str_list[0].startswith('tau'):
+        elif indented_str_list[0] == 'tau':
             PO = SilentTransition()
         else:
             label = indented_str_list[0]
-- 
2.43.0


From e0ed43973cac1c1b586bdff8b6485fac7ed9f063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 022/104] fix: PNML export writes unique identifiers

---
 .../petri_net/exporter/variants/pnml.py       | 25 +++++++++++++++----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/pm4py/objects/petri_net/exporter/variants/pnml.py b/pm4py/objects/petri_net/exporter/variants/pnml.py
index 708a060..2b6bb87 100644
--- a/pm4py/objects/petri_net/exporter/variants/pnml.py
+++ b/pm4py/objects/petri_net/exporter/variants/pnml.py
@@ -29,6 +29,20 @@ class Parameters(Enum):
     ENCODING = "encoding"
 
 
+def __get_unique_id(name, used_ids):
+    """
+    The identifiers of the nodes in the PNML are unique, while different nodes
+    of the Petri net can have the same name
+    """
+    node_id = name
+    count = 1
+    while node_id in used_ids:
+        node_id = "%s_%d" % (name, count)
+        count += 1
+    used_ids.add(node_id)
+    return node_id
+
+
 def export_petri_tree(petrinet, marking, final_marking=None, export_prom5=False, parameters=None):
     """
     Export a Petrinet to a XML tree
@@ -69,11 +83,12 @@ def export_petri_tree(petrinet, marking, final_marking=None, export_prom5=False,
     else:
         page = etree.SubElement(net, "page")
         page.set("id", "n0")
+    used_ids = set()
     places_map = {}
     for place in petrinet.places:
-        places_map[place] = place.name
+        places_map[place] = __get_unique_id(place.name, used_ids)
         pl = etree.SubElement(page, "place")
-        pl.set("id", place.name)
+        pl.set("id", places_map[place])
         pl_name = etree.SubElement(pl, "name")
         pl_name_text = etree.SubElement(pl_name, "text")
         pl_name_text.text = place.properties[
@@ -92,9 +107,9 @@ def export_petri_tree(petrinet, marking, final_marking=None, export_prom5=False,
             dimension.set("y", str(place.properties[constants.LAYOUT_INFORMATION_PETRI][1][1]))
     transitions_map = {}
     for transition in petrinet.transitions:
-        transitions_map[transition] = transition.name
+        transitions_map[transition] = __get_unique_id(transition.name, used_ids)
         trans = etree.SubElement(page, "transition")
-        trans.set("id", transition.name)
+        trans.set("id", transitions_map[transition])
         trans_name = etree.SubElement(trans, "name")
         trans_text = etree.SubElement(trans_name, "text")
         if constants.LAYOUT_INFORMATION_PETRI in transition.properties:
@@ -197,7 +212,7 @@ def export_petri_tree(petrinet, marking, final_marking=None, export_prom5=False,
 
         for place in final_marking:
             placem = etree.SubElement(marking, "place")
-            placem.set("idref", place.name)
+            placem.set("idref", places_map.get(place, place.name))
             placem_text = etree.SubElement(placem, "text")
             placem_text.text = str(final_marking[place])
 
-- 
2.43.0


From 022c832b94d45e141d0b19dcaa816497d9c7c931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:46 +0000
Subject: [PATCH 023/104] fix: respect arc weights in the synchronous product
 and the incidence matrix

---
 .../petri_net/utils/incidence_matrix.py       |  4 ++--
 .../petri_net/utils/synchronous_product.py    | 20 +++++++++----------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/pm4py/objects/petri_net/utils/incidence_matrix.py b/pm4py/objects/petri_net/utils/incidence_matrix.py
index 746950e..a804b4f 100644
--- a/pm4py/objects/petri_net/utils/incidence_matrix.py
+++ b/pm4py/objects/petri_net/utils/incidence_matrix.py
@@ -47,9 +47,9 @@ class IncidenceMatrix(object):
         a_matrix = [[0 for i in range(len(t_index))] for j in range(len(p_index))]
         for p in net.places:
             for a in p.in_arcs:
-                a_matrix[p_index[p]][t_index[a.source]] += 1
+                a_matrix[p_index[p]][t_index[a.source]] += a.weight
             for a in p.out_arcs:
-                a_matrix[p_index[p]][t_index[a.target]] -= 1
+                a_matrix[p_index[p]][t_index[a.target]] -= a.weight
         return a_matrix, p_index, t_index
 
     a_matrix = property(__get_a_matrix)
diff --git a/pm4py/objects/petri_net/utils/synchronous_product.py b/pm4py/objects/petri_net/utils/synchronous_product.py
index 67d3a6f..7de7385 100644
--- a/pm4py/objects/petri_net/utils/synchronous_product.py
+++ b/pm4py/objects/petri_net/utils/synchronous_product.py
@@ -51,13 +51,13 @@ def construct(pn1, im1, fm1, pn2, im2, fm2, skip):
                 for p2 in t2.properties:
                     sync.properties[p2] = t2.properties[p2]
                 for a in t1.in_arcs:
-                    add_arc_from_to(p1_map[a.source], sync, sync_net)
+                    add_arc_from_to(p1_map[a.source], sync, sync_net, weight=a.weight)
                 for a in t2.in_arcs:
-                    add_arc_from_to(p2_map[a.source], sync, sync_net)
+                    add_arc_from_to(p2_map[a.source], sync, sync_net, weight=a.weight)
                 for a in t1.out_arcs:
-                    add_arc_from_to(sync, p1_map[a.target], sync_net)
+                    add_arc_from_to(sync, p1_map[a.target], sync_net, weight=a.weight)
                 for a in t2.out_arcs:
-                    add_arc_from_to(sync, p2_map[a.target], sync_net)
+                    add_arc_from_to(sync, p2_map[a.target], sync_net, weight=a.weight)
 
     sync_im = Marking()
     sync_fm = Marking()
@@ -119,13 +119,13 @@ def construct_cost_aware(pn1, im1, fm1, pn2, im2, fm2, skip, pn1_costs, pn2_cost
                 for p2 in t2.properties:
                     sync.properties[p2] = t2.properties[p2]
                 for a in t1.in_arcs:
-                    add_arc_from_to(p1_map[a.source], sync, sync_net)
+                    add_arc_from_to(p1_map[a.source], sync, sync_net, weight=a.weight)
                 for a in t2.in_arcs:
-                    add_arc_from_to(p2_map[a.source], sync, sync_net)
+                    add_arc_from_to(p2_map[a.source], sync, sync_net, weight=a.weight)
                 for a in t1.out_arcs:
-                    add_arc_from_to(sync, p1_map[a.target], sync_net)
+                    add_arc_from_to(sync, p1_map[a.target], sync_net, weight=a.weight)
                 for a in t2.out_arcs:
-                    add_arc_from_to(sync, p2_map[a.target], sync_net)
+                    add_arc_from_to(sync, p2_map[a.target], sync_net, weight=a.weight)
 
     sync_im = Marking()
     sync_fm = Marking()
@@ -166,8 +166,8 @@ def __copy_into(source_net, target_net, upper, skip):
 
     for t in source_net.transitions:
         for a in t.in_arcs:
-            add_arc_from_to(p_map[a.source], t_map[t], target_net)
+            add_arc_from_to(p_map[a.source], t_map[t], target_net, weight=a.weight)
         for a in t.out_arcs:
-            add_arc_from_to(t_map[t], p_map[a.target], target_net)
+            add_arc_from_to(t_map[t], p_map[a.target], target_net, weight=a.weight)
 
     return t_map, p_map
-- 
2.43.0


From b635f5b83aa6d457074300c9de64dfb522fd4374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:46 +0000
Subject: [PATCH 024/104] fix: less-memory alignments are optimal and report
 the best-worst cost of the trace

---
 .../petri_net/variants/dijkstra_less_memory.py     | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py b/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
index c457ab3..ac25b13 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
@@ -340,6 +340,8 @@ def apply(trace: Trace, net: PetriNet, im: Marking, fm: Marking, parameters: Opt
 
     model_struct = __transform_model_to_mem_efficient_structure(net, im, fm, trace, parameters=parameters)
     trace_struct = __transform_trace_to_mem_efficient_structure(trace, model_struct, parameters=parameters)
+    if exec_utils.get_param_value(Parameters.PARAM_TRACE_COST_FUNCTION, parameters, None) is None:
+        parameters[Parameters.PARAM_TRACE_COST_FUNCTION] = [align_utils.STD_MODEL_LOG_MOVE_COST for e in trace]
 
     sync_cost = exec_utils.get_param_value(Parameters.PARAM_STD_SYNC_COST, parameters, align_utils.STD_SYNC_COST)
     max_align_time_trace = exec_utils.get_param_value(Parameters.PARAM_MAX_ALIGN_TIME_TRACE, parameters,
@@ -476,9 +478,7 @@ def __check_closed(closed, ns):
     bool
         Boolean (true if the state is closed)
     """
-    if ns[0] in closed and closed[ns[0]] <= ns[1]:
-        return True
-    return False
+    return ns in closed
 
 
 def __add_closed(closed, ns):
@@ -492,7 +492,7 @@ def __add_closed(closed, ns):
     ns
         New state (marking, index)
     """
-    closed[ns[0]] = ns[1]
+    closed.add(ns)
 
 
 def __add_to_open_set(open_set, ns):
@@ -593,7 +593,7 @@ def __dijkstra(model_struct, trace_struct, sync_cost=align_utils.STD_SYNC_COST,
     open_set = [initial_state]
     heapq.heapify(open_set)
 
-    closed = {}
+    closed = set()
     dummy_count = 0
     visited = 0
 
@@ -640,10 +640,6 @@ def __dijkstra(model_struct, trace_struct, sync_cost=align_utils.STD_SYNC_COST,
                     # if it can be executed in a sync way, add a new state corresponding
                     # to the sync execution only if it has not already been closed
                     open_set = __add_to_open_set(open_set, new_state)
-                # if a sync move reached new_m, do not schedule any model move that reaches new_m
-                this_closed.add(new_m)
-                del en_t[j]
-                continue
             j = j + 1
         en_t.sort(key=lambda t: transf_model_cost_function[t])
         j = 0
-- 
2.43.0


From 4f07a5cd57c3c2cf666ed44d44fb80ac5ce2cad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:46 +0000
Subject: [PATCH 025/104] fix: tweaked A* alignments handle infeasible marking
 equations

---
 .../variants/tweaked_state_equation_a_star.py        | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py b/pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py
index d9c2804..d031097 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py
@@ -463,6 +463,15 @@ def __search(sync_net, ini, fin, cost_function, skip, ret_tuple_as_trans_desc=Fa
             me.change_ini_vec(curr.m)
             h, x = me.solve()
 
+            if h is None:
+                # the final marking cannot be reached from the current marking
+                closed.add(current_marking)
+                if not open_set:
+                    return None
+                curr = heapq.heappop(open_set)
+                current_marking = curr.m
+                continue
+
             __update_heu_dict_specific_point(heu_dict, heu_max_ind_dict, mm, index, h, x)
 
             lp_solved += 1
@@ -559,7 +568,8 @@ def __min_total_cost_given_trans(mark_eq, ini, incidence_matrix, t):
     Aub = np.vstack([Aub, Aub_appendix])
     bub = np.vstack([bub, bub_appendix])
     h, x = mark_eq.solve_given_components(c, Aub, bub, Aeq, beq)
-    return h
+    # if no solution of the marking equation passes through the transition, the final marking cannot be reached
+    return h if h is not None else sys.maxsize
 
 
 def __update_heu_dict(heu_dict, heu_max_ind_dict, mm, index, h, x, firing_sequence, incidence_matrix, cost_vec):
-- 
2.43.0


From d3e8d1f41f76a9fc3c9f8687c2089d4b7099be5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:46 +0000
Subject: [PATCH 026/104] fix: realization of a marking equation solution must
 reach the final marking

---
 pm4py/objects/petri_net/utils/align_utils.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pm4py/objects/petri_net/utils/align_utils.py b/pm4py/objects/petri_net/utils/align_utils.py
index a3a660f..b7a1bd9 100644
--- a/pm4py/objects/petri_net/utils/align_utils.py
+++ b/pm4py/objects/petri_net/utils/align_utils.py
@@ -16,6 +16,7 @@
 '''
 import heapq
 import sys
+from collections import Counter
 from copy import copy
 from typing import List, Tuple
 
@@ -71,6 +72,7 @@ def search_path_among_sol(sync_net: PetriNet, ini: Marking, fin: Marking,
             trans_wo_index.add(t)
     keys = sorted(list(trans_with_index.keys()))
     trans_with_index = [trans_with_index[i] for i in keys]
+    activated_count = Counter(activated_transitions)
     best_tuple = (0, 0, ini, list())
     open_set = [best_tuple]
     heapq.heapify(open_set)
@@ -83,16 +85,15 @@ def search_path_among_sol(sync_net: PetriNet, ini: Marking, fin: Marking,
         marking = curr[2]
         if marking in closed:
             continue
-        if index == len_trace_with_index:
+        if index == len_trace_with_index and marking == fin:
             reach_fm = True
-            if curr[0] < best_tuple[0]:
-                best_tuple = curr
+            best_tuple = curr
             break
         if curr[0] < best_tuple[0]:
             best_tuple = curr
         closed.add(marking)
-        corr_trans = trans_with_index[index]
-        if corr_trans.sub_marking <= marking:
+        corr_trans = trans_with_index[index] if index < len_trace_with_index else None
+        if corr_trans is not None and corr_trans.sub_marking <= marking:
             visited += 1
             new_marking = semantics.weak_execute(corr_trans, marking)
             heapq.heappush(open_set, (-index-1, visited, new_marking, curr[3]+[corr_trans]))
@@ -100,7 +101,9 @@ def search_path_among_sol(sync_net: PetriNet, ini: Marking, fin: Marking,
             enabled = copy(trans_empty_preset)
             for p in marking:
                 for t in p.ass_trans:
-                    if t in trans_wo_index and t.sub_marking <= marking:
+                    # the firing sequence is a realization of the solution: every transition fires at most
+                    # as many times as in the solution
+                    if t in trans_wo_index and t.sub_marking <= marking and curr[3].count(t) < activated_count[t]:
                         enabled.add(t)
             for new_trans in enabled:
                 visited += 1
-- 
2.43.0


From dac3206d0a70acb14b2ad369f016537c57e744ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:46 +0000
Subject: [PATCH 027/104] fix: alignment fitness of a fitting empty trace is 1

---
 pm4py/algo/conformance/alignments/petri_net/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/alignments/petri_net/algorithm.py b/pm4py/algo/conformance/alignments/petri_net/algorithm.py
index 43cb8a9..d27a7c6 100644
--- a/pm4py/algo/conformance/alignments/petri_net/algorithm.py
+++ b/pm4py/algo/conformance/alignments/petri_net/algorithm.py
@@ -158,7 +158,7 @@ def apply_trace(trace, petri_net, initial_marking, final_marking, parameters=Non
 
             fitness_num = ali['cost'] // align_utils.STD_MODEL_LOG_MOVE_COST
             fitness_den = ltrace_bwc // align_utils.STD_MODEL_LOG_MOVE_COST
-            fitness = 1 - fitness_num / fitness_den if fitness_den > 0 else 0
+            fitness = 1 - fitness_num / fitness_den if fitness_den > 0 else (1.0 if fitness_num == 0 else 0)
 
             ali["fitness"] = fitness
             # returning also the best worst cost, for log fitness computation
-- 
2.43.0


From d7f1b6f24519e3e2114d9f8626da2445e064252e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:29 +0000
Subject: [PATCH 028/104] fix: DFG alignments keep leading model moves and
 trailing log moves

---
 .../alignments/dfg/variants/classic.py        | 25 +++++++++----------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/dfg/variants/classic.py b/pm4py/algo/conformance/alignments/dfg/variants/classic.py
index a499a86..b4672fb 100644
--- a/pm4py/algo/conformance/alignments/dfg/variants/classic.py
+++ b/pm4py/algo/conformance/alignments/dfg/variants/classic.py
@@ -374,9 +374,7 @@ def __apply_list_activities(trace, dfg, sa, ea, parameters=None):
     # closed set: the set associates each activity of the model with the index of the trace that lastly visited that.
     # this is a very efficient closed set since it cuts double-visiting the same activity for state visited later
     # that have a lower index of a trace.
-    closed = {activities_one_instantiation[x]: -1 for x in activities_model}
-    closed[start_node] = -1
-    closed[end_node] = -1
+    closed = set()
 
     f = 0
     h = 0
@@ -393,11 +391,11 @@ def __apply_list_activities(trace, dfg, sa, ea, parameters=None):
 
         num_visited = num_visited + 1
 
-        if -curr[POSITION_LOG] <= closed[curr[POSITION_MODEL]]:
+        if (curr[POSITION_MODEL], curr[POSITION_LOG]) in closed:
             # closed
             continue
 
-        closed[curr[POSITION_MODEL]] = -curr[POSITION_LOG]
+        closed.add((curr[POSITION_MODEL], curr[POSITION_LOG]))
         not_end_trace = -curr[POSITION_LOG] < len(trace)
 
         if curr[POSITION_MODEL] == end_node and not not_end_trace:
@@ -427,7 +425,7 @@ def __apply_list_activities(trace, dfg, sa, ea, parameters=None):
 
                     new_state = (g, curr[POSITION_LOG] - 1, num_visited, -h, real_f, f, activities_one_instantiation[trace_curr],
                                  False, False, curr)
-                    if -new_state[POSITION_LOG] > closed[new_state[POSITION_MODEL]]:
+                    if (new_state[POSITION_MODEL], new_state[POSITION_LOG]) not in closed:
                         heapq.heappush(open_set, new_state)
 
                 for act in list_act:
@@ -435,7 +433,7 @@ def __apply_list_activities(trace, dfg, sa, ea, parameters=None):
                         new_state = (
                             curr[POSITION_G], curr[POSITION_LOG], num_visited, curr[POSITION_H], curr[POSITION_REAL_F], curr[POSITION_F],
                             end_node, False, False, curr)
-                        if -new_state[POSITION_LOG] > closed[new_state[POSITION_MODEL]]:
+                        if (new_state[POSITION_MODEL], new_state[POSITION_LOG]) not in closed:
                             heapq.heappush(open_set, new_state)
                     elif not not_end_trace or not trace_curr in list_act:
                         f = curr[POSITION_F] + model_move_cost_function[act]
@@ -448,7 +446,7 @@ def __apply_list_activities(trace, dfg, sa, ea, parameters=None):
                             g, curr[POSITION_LOG], num_visited, -h, real_f, f, activities_one_instantiation[act], False,
                             True,
                             curr)
-                        if -new_state[POSITION_LOG] > closed[new_state[POSITION_MODEL]]:
+                        if (new_state[POSITION_MODEL], new_state[POSITION_LOG]) not in closed:
                             heapq.heappush(open_set, new_state)
 
         if not_end_trace and not curr[POSITION_IS_MM]:
@@ -460,7 +458,7 @@ def __apply_list_activities(trace, dfg, sa, ea, parameters=None):
             g = f + h
 
             new_state = (g, curr[POSITION_LOG] - 1, num_visited, -h, real_f, f, curr[POSITION_MODEL], True, False, curr)
-            if -new_state[POSITION_LOG] > closed[new_state[POSITION_MODEL]]:
+            if (new_state[POSITION_MODEL], new_state[POSITION_LOG]) not in closed:
                 heapq.heappush(open_set, new_state)
 
 
@@ -486,19 +484,20 @@ def __return_alignment(state, trace, closed):
     internal_cost = state[POSITION_F]
     visited = state[POSITION_NUM_VISITED]
     moves = []
+    end_node = state[POSITION_MODEL]
     while state[POSITION_PREV] is not None:
-        state = state[POSITION_PREV]
         is_lm = state[POSITION_IS_LM]
         is_mm = state[POSITION_IS_MM]
-        pl = -state[POSITION_LOG] - 1
-        if pl >= 0:
+        # the step to the artificial end node is not a move
+        if is_lm or state[POSITION_MODEL] != end_node:
             lm = ">>"
             mm = ">>"
             if not is_lm:
                 mm = state[POSITION_MODEL]
             if not is_mm:
-                lm = trace[pl]
+                lm = trace[-state[POSITION_LOG] - 1]
             moves.append((lm, mm))
+        state = state[POSITION_PREV]
     moves.reverse()
 
     return {Outputs.ALIGNMENT.value: moves, Outputs.COST.value: cost, Outputs.VISITED.value: visited,
-- 
2.43.0


From 61c2b7096ddafcc40153b9a7e2f0d19e90771412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:29 +0000
Subject: [PATCH 029/104] fix: approximated alignments use the ILP when the LP
 relaxation is fractional

---
 .../alignments/process_tree/variants/approximated/matrix_lp.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/alignments/process_tree/variants/approximated/matrix_lp.py b/pm4py/algo/conformance/alignments/process_tree/variants/approximated/matrix_lp.py
index e47d94b..c438e0d 100644
--- a/pm4py/algo/conformance/alignments/process_tree/variants/approximated/matrix_lp.py
+++ b/pm4py/algo/conformance/alignments/process_tree/variants/approximated/matrix_lp.py
@@ -1289,7 +1289,7 @@ def __ilp_solve(c, Aub, bub, Aeq, beq):
         points = solver.get_points_from_sol(sol, variant="cvxopt_solver_custom_align")
         condition_points = True
         for x in points:
-            if x > TOL or x < 1 - TOL:
+            if x < TOL or x > 1 - TOL:
                 continue
             condition_points = False
             break
-- 
2.43.0


From 4d7438f347395a29f67b080db008766928a39c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:29 +0000
Subject: [PATCH 030/104] fix: process tree alignments are complete and optimal

---
 .../util/search_graph_pt_replay_semantics.py  |   4 +-
 .../process_tree/variants/search_graph_pt.py  | 108 +++++++++---------
 2 files changed, 59 insertions(+), 53 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/process_tree/util/search_graph_pt_replay_semantics.py b/pm4py/algo/conformance/alignments/process_tree/util/search_graph_pt_replay_semantics.py
index aba4767..d6ba900 100644
--- a/pm4py/algo/conformance/alignments/process_tree/util/search_graph_pt_replay_semantics.py
+++ b/pm4py/algo/conformance/alignments/process_tree/util/search_graph_pt_replay_semantics.py
@@ -78,8 +78,8 @@ def can_close(tree: ProcessTree, state: ProcessTreeState) -> bool:
         return frozenset(map(lambda child: state[(id(child), child)], tree.children)) == {
             ProcessTree.OperatorState.CLOSED}
     elif ptu.is_any_operator_of(tree, [Operator.OR]):
-        return frozenset(map(lambda child: state[(id(child), child)], tree.children)) == {
-            ProcessTree.OperatorState.CLOSED, ProcessTree.OperatorState.FUTURE}
+        return frozenset(map(lambda child: state[(id(child), child)], tree.children)) in (
+            {ProcessTree.OperatorState.CLOSED, ProcessTree.OperatorState.FUTURE}, {ProcessTree.OperatorState.CLOSED})
     elif ptu.is_operator(tree, Operator.LOOP):
         return ptu.is_in_state(tree.children[0], ProcessTree.OperatorState.CLOSED, state) and ptu.is_in_state(
             tree.children[1], ProcessTree.OperatorState.FUTURE, state)
diff --git a/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py b/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py
index 9614676..b4e6ef9 100644
--- a/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py
+++ b/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py
@@ -52,6 +52,7 @@ class SGASearchState:
         self.parent = parent  # parent search state
         self.children = children if children is not None else set()  # successor search states
         self.path = []
+        self.sync_position = None  # position of the synchronous move among the leaves (None: log move)
 
     def __lt__(self, other):
         if self.costs < other.costs:
@@ -70,33 +71,18 @@ def _construct_result_dictionary(state: SGASearchState, variant: List[str]):
     result['cost'] = state.costs
     alignment = list()
     current_state = state
-    parent_state = state.parent
-    while parent_state is not None:
-        if len(current_state.leaves) > 0:
-            if current_state.index == len(variant):
-                leaf_labels = list(reversed(list(map(lambda o: o.label, current_state.leaves))))
-                if variant[-1] in leaf_labels:
-                    i = leaf_labels.index(variant[-1])
-                    leaves_reversed = list(reversed(current_state.leaves))
-                    for j in range(len(leaves_reversed)):
-                        if i == j:
-                            alignment.append((variant[-1], leaves_reversed[j]))
-                        else:
-                            alignment.append((align_utils.SKIP, leaves_reversed[j]))
-                else:
-                    if current_state.costs - len(current_state.leaves) > parent_state.costs:
-                        alignment.append((variant[parent_state.index], align_utils.SKIP))
-                    for leaf in reversed(current_state.leaves):
-                        alignment.append((align_utils.SKIP, leaf))
+    while current_state is not None:
+        parent_state = current_state.parent
+        # the moves that led from the parent state to the current state
+        moves = [(align_utils.SKIP, leaf) for leaf in current_state.leaves]
+        if parent_state is not None:
+            if current_state.sync_position is None:
+                moves.insert(0, (variant[parent_state.index], align_utils.SKIP))
             else:
-                alignment.append((variant[parent_state.index], current_state.leaves[len(current_state.leaves) - 1]))
-                leaves_reversed = list(reversed(current_state.leaves))[1:]
-                for n in leaves_reversed:
-                    alignment.append((align_utils.SKIP, n))
-        else:
-            alignment.append((variant[parent_state.index], align_utils.SKIP))
-        parent_state = parent_state.parent
-        current_state = current_state.parent
+                sync_leaf = current_state.leaves[current_state.sync_position]
+                moves[current_state.sync_position] = (variant[parent_state.index], sync_leaf)
+        alignment.extend(reversed(moves))
+        current_state = parent_state
     result['alignment'] = list(reversed(alignment))
     result['optimal'] = True
     result['state'] = state
@@ -123,6 +109,7 @@ def _check_if_state_exists_and_update(search_state: SGASearchState, collection):
                 alt.costs = search_state.costs
                 alt.parent = search_state.parent
                 alt.leaves = search_state.leaves
+                alt.sync_position = search_state.sync_position
     return match
 
 
@@ -151,11 +138,12 @@ def _need_log_move(old_state, new_state, path) -> bool:
     for choice in choices:
         choice = choice[1]
         if pt_util.is_operator(choice, Operator.XOR):
-            if (pt_util.is_in_state(choice, ProcessTree.OperatorState.FUTURE, old_state) or pt_util.is_in_state(choice,
-                                                                                                                ProcessTree.OperatorState.CLOSED,
-                                                                                                                old_state)) and \
-                    old_state[(id(choice), choice)] != new_state[(id(choice), choice)]:
-                return True
+            # a choice that was still open is made by the path
+            for child in choice.children:
+                if old_state.get((id(child), child), ProcessTree.OperatorState.FUTURE) in {
+                    ProcessTree.OperatorState.FUTURE, ProcessTree.OperatorState.CLOSED} and \
+                        old_state.get((id(child), child)) != new_state.get((id(child), child)):
+                    return True
         elif pt_util.is_operator(choice, Operator.LOOP):
             for loop_child in choice.children:
                 if (pt_util.is_in_state(loop_child, ProcessTree.OperatorState.FUTURE,
@@ -167,6 +155,23 @@ def _need_log_move(old_state, new_state, path) -> bool:
     return False
 
 
+def _paths_to_enable(leaf, state):
+    """
+    Yields the ways to enable the leaf: the shortest one, and the ones which first complete the running
+    iteration of a loop around the leaf
+    """
+    yield pt_sem.shortest_path_to_enable(leaf, copy.copy(state))
+    node = leaf
+    while node.parent is not None:
+        if pt_util.is_operator(node.parent, Operator.LOOP) and pt_util.is_in_state(
+                node, ProcessTree.OperatorState.OPEN, state):
+            path, new_state = pt_sem.shortest_path_to_close(node, copy.copy(state))
+            e_path, new_state = pt_sem.shortest_path_to_enable(leaf, new_state)
+            if e_path is not None:
+                yield path + e_path, new_state
+        node = node.parent
+
+
 def align_variant(variant, tree_leaf_set, pt):
     lmcf = [1] * len(variant)
     initial_search_state = SGASearchState(0, 0, pt_sem.get_initial_state(pt))
@@ -186,23 +191,24 @@ def align_variant(variant, tree_leaf_set, pt):
                               t.label is not None and t.label == variant[sga_state.index]]
                 need_log_move = len(candidates) == 0
                 for leaf in candidates:
-                    path, new_state = pt_sem.shortest_path_to_enable(leaf, copy.copy(sga_state.state))
-                    need_log_move = True if path is None else need_log_move
-                    if path is not None:
-                        model_moves = _obtain_leaves_from_state_path(path)
-                        need_log_move = need_log_move if need_log_move else _need_log_move(sga_state.state, new_state,
-                                                                                           path)
-                        sync_path, new_state = pt_sem.shortest_path_to_close(leaf, new_state)
-                        path.extend(sync_path)
-                        leaves = _obtain_leaves_from_state_path(path, include_tau=True)
-                        new_state = SGASearchState(sga_state.costs + len(model_moves),
-                                           sga_state.index + 1,
-                                           new_state, leaves=leaves, parent=sga_state)
-                        new_state.path = tuple(path)
-                        open_set, closed_set = _add_new_state(
-                            new_state, sga_state,
-                            open_set,
-                            closed_set)
+                    for path, new_state in _paths_to_enable(leaf, sga_state.state):
+                        need_log_move = True if path is None else need_log_move
+                        if path is not None:
+                            model_moves = _obtain_leaves_from_state_path(path)
+                            need_log_move = need_log_move if need_log_move else _need_log_move(sga_state.state, new_state,
+                                                                                               path)
+                            sync_path, new_state = pt_sem.shortest_path_to_close(leaf, new_state)
+                            path.extend(sync_path)
+                            leaves = _obtain_leaves_from_state_path(path, include_tau=True)
+                            new_state = SGASearchState(sga_state.costs + len(model_moves),
+                                               sga_state.index + 1,
+                                               new_state, leaves=leaves, parent=sga_state)
+                            new_state.path = tuple(path)
+                            new_state.sync_position = len(leaves) - 1
+                            open_set, closed_set = _add_new_state(
+                                new_state, sga_state,
+                                open_set,
+                                closed_set)
                 if need_log_move:
                     open_set, closed_set = _add_new_state(
                         SGASearchState(sga_state.costs + lmcf[sga_state.index],
@@ -221,7 +227,7 @@ def align_variant(variant, tree_leaf_set, pt):
 def _apply_variant(variant, tree, leaves, bwc, parameters=None):
     alignment_obj = align_variant(variant, leaves, tree)
     ltrace_bwc = len(variant) + bwc
-    alignment_obj["fitness"] = 1.0 - alignment_obj["cost"] / ltrace_bwc if ltrace_bwc > 0 else 0.0
+    alignment_obj["fitness"] = 1.0 - alignment_obj["cost"] / ltrace_bwc if ltrace_bwc > 0 else 1.0
     return alignment_obj
 
 
@@ -347,8 +353,8 @@ def apply_multiprocessing(obj: Union[EventLog, Trace, pd.DataFrame], pt: Process
             for variant in traces:
                 if variant not in align_dict:
                     al = futures[variant].result()
-                    ltrace_bwc = len(trace) + best_worst_cost
-                    al["fitness"] = 1.0 - al["cost"] / ltrace_bwc if ltrace_bwc > 0 else 0.0
+                    ltrace_bwc = len(variant) + best_worst_cost
+                    al["fitness"] = 1.0 - al["cost"] / ltrace_bwc if ltrace_bwc > 0 else 1.0
                     align_dict[variant] = al
                 ret.append(align_dict[variant])
             _destroy_progress_bar(progress)
-- 
2.43.0


From 906ca0b07ae95bd29171cafa3acf2211fb4fb033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:35 +0000
Subject: [PATCH 031/104] fix: consider open OR choices when deciding on log
 moves in tree alignments

---
 .../alignments/process_tree/variants/search_graph_pt.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py b/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py
index b4e6ef9..e15e279 100644
--- a/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py
+++ b/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py
@@ -134,10 +134,10 @@ def _obtain_leaves_from_state_path(path, include_tau=False):
 def _need_log_move(old_state, new_state, path) -> bool:
     if len(_obtain_leaves_from_state_path(path, include_tau=True)) > 0:
         return True
-    choices = list(filter(lambda o: pt_util.is_any_operator_of(o[1], [Operator.XOR, Operator.LOOP]), old_state.keys()))
+    choices = list(filter(lambda o: pt_util.is_any_operator_of(o[1], [Operator.XOR, Operator.OR, Operator.LOOP]), old_state.keys()))
     for choice in choices:
         choice = choice[1]
-        if pt_util.is_operator(choice, Operator.XOR):
+        if pt_util.is_any_operator_of(choice, [Operator.XOR, Operator.OR]):
             # a choice that was still open is made by the path
             for child in choice.children:
                 if old_state.get((id(child), child), ProcessTree.OperatorState.FUTURE) in {
-- 
2.43.0


From 4dac99451f0856ec7e511a70e0673f253b8699c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:30 +0000
Subject: [PATCH 032/104] fix: token-based replay: weighted missing tokens,
 unreached final marking, place sums, unknown activities, cache keys

---
 .../tokenreplay/variants/token_replay.py      | 35 ++++++++++---------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
index 9fac2b7..b6cab27 100644
--- a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
+++ b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
@@ -93,7 +93,7 @@ def add_missing_tokens(t, marking):
         if marking[a.source] < a.weight:
             missing = missing + (a.weight - marking[a.source])
             tokens_added[a.source] = a.weight - marking[a.source]
-            marking[a.source] = marking[a.source] + a.weight
+            marking[a.source] = a.weight
     return [missing, tokens_added]
 
 
@@ -450,26 +450,26 @@ def apply_trace(trace, net, initial_marking, final_marking, trans_map, enable_pl
     current_remaining_map = {}
     for i in range(len(trace)):
         if enable_postfix_cache and (str(trace_activities) in post_fix_caching.cache and
-                                     hash(marking) in post_fix_caching.cache[str(trace_activities)]):
-            trans_to_act = post_fix_caching.cache[str(trace_activities)][hash(marking)]["trans_to_activate"]
+                                     frozenset(marking.items()) in post_fix_caching.cache[str(trace_activities)]):
+            trans_to_act = post_fix_caching.cache[str(trace_activities)][frozenset(marking.items())]["trans_to_activate"]
             for z in range(len(trans_to_act)):
                 t = trans_to_act[z]
                 act_trans.append(t)
             used_postfix_cache = True
-            marking = post_fix_caching.cache[str(trace_activities)][hash(marking)]["final_marking"]
+            marking = post_fix_caching.cache[str(trace_activities)][frozenset(marking.items())]["final_marking"]
             break
         else:
             prev_len_activated_transitions = len(act_trans)
-            if enable_marktoact_cache and (hash(marking) in marking_to_activity_caching.cache and
-                                           trace[i][activity_key] in marking_to_activity_caching.cache[hash(marking)]
+            if enable_marktoact_cache and (frozenset(marking.items()) in marking_to_activity_caching.cache and
+                                           trace[i][activity_key] in marking_to_activity_caching.cache[frozenset(marking.items())]
                                            and trace[i - 1][activity_key] ==
-                                           marking_to_activity_caching.cache[hash(marking)][trace[i][activity_key]]
+                                           marking_to_activity_caching.cache[frozenset(marking.items())][trace[i][activity_key]]
                                            ["previousActivity"]):
-                this_end_marking = marking_to_activity_caching.cache[hash(marking)][trace[i][activity_key]][
+                this_end_marking = marking_to_activity_caching.cache[frozenset(marking.items())][trace[i][activity_key]][
                     "end_marking"]
-                this_act_trans = marking_to_activity_caching.cache[hash(marking)][trace[i][activity_key]][
+                this_act_trans = marking_to_activity_caching.cache[frozenset(marking.items())][trace[i][activity_key]][
                     "this_activated_transitions"]
-                this_vis_markings = marking_to_activity_caching.cache[hash(marking)][trace[i][activity_key]][
+                this_vis_markings = marking_to_activity_caching.cache[frozenset(marking.items())][trace[i][activity_key]][
                     "this_visited_markings"]
                 act_trans = act_trans + this_act_trans
                 vis_mark = vis_mark + this_vis_markings
@@ -524,7 +524,7 @@ def apply_trace(trace, net, initial_marking, final_marking, trans_map, enable_pl
                             for place in tokens_added.keys():
                                 if place in place_fitness:
                                     place_fitness[place]["underfed_traces"].add(trace)
-                                place_fitness[place]["m"] += tokens_added[place]
+                                    place_fitness[place]["m"] += tokens_added[place] * trace_occurrences
                             if trace not in transition_fitness[t]["underfed_traces"]:
                                 transition_fitness[t]["underfed_traces"][trace] = list()
                             transition_fitness[t]["underfed_traces"][trace].append(current_event_map)
@@ -571,7 +571,7 @@ def apply_trace(trace, net, initial_marking, final_marking, trans_map, enable_pl
             del trace_activities[0]
             if len(trace_activities) < TechnicalParameters.MAX_POSTFIX_SUFFIX_LENGTH.value:
                 activating_transition_index[str(trace_activities)] = {"index": len(act_trans),
-                                                                      "marking": hash(marking)}
+                                                                      "marking": frozenset(marking.items())}
             if i > 0:
                 activating_transition_interval.append(
                     [trace[i][activity_key], prev_len_activated_transitions, len(act_trans),
@@ -643,7 +643,8 @@ def apply_trace(trace, net, initial_marking, final_marking, trans_map, enable_pl
                             else:
                                 break
 
-    marking_before_cleaning = copy(marking)
+    marking_before_cleaning = marking
+    marking = copy(marking)
 
     # 25/02/2020: fix to the missing tokens mark (if the final marking is not reached)
     # (not inficiating the previous stat)
@@ -681,11 +682,11 @@ def apply_trace(trace, net, initial_marking, final_marking, trans_map, enable_pl
         remaining = remaining + current_remaining_map[p]
 
     if consider_remaining_in_fitness:
-        is_fit = (missing == 0) and (remaining == 0)
+        is_fit = (missing == 0) and (remaining == 0) and not diff_fin_mark_mark
     else:
         is_fit = (missing == 0)
 
-    if consider_activities_not_in_model_in_fitness and notexisting_activities_in_model:
+    if consider_activities_not_in_model_in_fitness and any(event[activity_key] not in trans_map for event in trace):
         is_fit = False
 
     # separate global counts from local statistics in the case these are not enabled by the options
@@ -716,7 +717,7 @@ def apply_trace(trace, net, initial_marking, final_marking, trans_map, enable_pl
             if activating_transition_index[suffix]["marking"] not in post_fix_caching.cache[suffix]:
                 post_fix_caching.cache[suffix][activating_transition_index[suffix]["marking"]] = \
                     {"trans_to_activate": act_trans[activating_transition_index[suffix]["index"]:],
-                     "final_marking": marking}
+                     "final_marking": marking_before_cleaning}
         for trans in activating_transition_interval:
             activity = trans[0]
             start_marking_index = trans[1]
@@ -724,7 +725,7 @@ def apply_trace(trace, net, initial_marking, final_marking, trans_map, enable_pl
             previous_activity = trans[3]
             if end_marking_index < len(vis_mark):
                 start_marking_object = vis_mark[start_marking_index]
-                start_marking_hash = hash(start_marking_object)
+                start_marking_hash = frozenset(start_marking_object.items())
                 end_marking_object = vis_mark[end_marking_index]
                 if activity in trans_map:
                     this_activated_trans = act_trans[start_marking_index:end_marking_index]
-- 
2.43.0


From 23a841684752f24194d277d5affaed53681dfd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:22 +0000
Subject: [PATCH 033/104] fix: precision on dataframes, with worker processes
 and commas in activity names

---
 pm4py/algo/evaluation/precision/utils.py                   | 5 ++---
 .../evaluation/precision/variants/align_etconformance.py   | 7 ++++---
 .../evaluation/precision/variants/etconformance_token.py   | 5 +++--
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/pm4py/algo/evaluation/precision/utils.py b/pm4py/algo/evaluation/precision/utils.py
index df4c054..2eee6ff 100644
--- a/pm4py/algo/evaluation/precision/utils.py
+++ b/pm4py/algo/evaluation/precision/utils.py
@@ -124,7 +124,7 @@ def get_log_prefixes(log, activity_key=xes_util.DEFAULT_NAME_KEY, case_id_key=co
 
     for trace in traces:
         for i in range(1, len(trace)):
-            prefix = constants.DEFAULT_VARIANT_SEP.join(trace[0:i])
+            prefix = tuple(trace[0:i])
             next_activity = trace[i]
             if prefix not in prefixes:
                 prefixes[prefix] = set()
@@ -148,8 +148,7 @@ def form_fake_log(prefixes_keys, activity_key=xes_util.DEFAULT_NAME_KEY):
     fake_log = EventLog()
     for prefix in prefixes_keys:
         trace = Trace()
-        prefix_activities = prefix.split(constants.DEFAULT_VARIANT_SEP)
-        for activity in prefix_activities:
+        for activity in prefix:
             event = Event()
             event[activity_key] = activity
             trace.append(event)
diff --git a/pm4py/algo/evaluation/precision/variants/align_etconformance.py b/pm4py/algo/evaluation/precision/variants/align_etconformance.py
index 074aff5..dad0742 100644
--- a/pm4py/algo/evaluation/precision/variants/align_etconformance.py
+++ b/pm4py/algo/evaluation/precision/variants/align_etconformance.py
@@ -125,8 +125,9 @@ def apply(log: Union[EventLog, EventStream, pd.DataFrame], net: PetriNet, markin
     start_activities = set(get_start_activities(log, parameters=parameters))
     trans_en_ini_marking = set([x.label for x in get_visible_transitions_eventually_enabled_by_marking(net, marking)])
     diff = trans_en_ini_marking.difference(start_activities)
-    sum_at += len(log) * len(trans_en_ini_marking)
-    sum_ee += len(log) * len(diff)
+    no_cases = log[case_id_key].nunique() if type(log) is pd.DataFrame else len(log)
+    sum_at += no_cases * len(trans_en_ini_marking)
+    sum_ee += no_cases * len(diff)
     # end fix
 
     if sum_at > 0:
@@ -265,7 +266,7 @@ def __align_log_wo_multiprocessing_stop_marking(fake_log, net, marking, final_ma
 
 
 def __align_log_with_multiprocessing_stop_marking(fake_log, net, marking, final_marking, progress, parameters=None):
-    if parameters is not None:
+    if parameters is None:
         parameters = {}
 
     import multiprocessing
diff --git a/pm4py/algo/evaluation/precision/variants/etconformance_token.py b/pm4py/algo/evaluation/precision/variants/etconformance_token.py
index bee67dc..f4b82e1 100644
--- a/pm4py/algo/evaluation/precision/variants/etconformance_token.py
+++ b/pm4py/algo/evaluation/precision/variants/etconformance_token.py
@@ -117,8 +117,9 @@ def apply(log: EventLog, net: PetriNet, marking: Marking, final_marking: Marking
     start_activities = set(get_start_activities(log, parameters=parameters))
     trans_en_ini_marking = set([x.label for x in get_visible_transitions_eventually_enabled_by_marking(net, marking)])
     diff = trans_en_ini_marking.difference(start_activities)
-    sum_at += len(log) * len(trans_en_ini_marking)
-    sum_ee += len(log) * len(diff)
+    no_cases = log[case_id_key].nunique() if type(log) is pd.DataFrame else len(log)
+    sum_at += no_cases * len(trans_en_ini_marking)
+    sum_ee += no_cases * len(diff)
     # end fix
 
     for i in range(len(aligned_traces)):
-- 
2.43.0


From 7a41af0e5fc147775df36b57d689fb414c1f0472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:22 +0000
Subject: [PATCH 034/104] fix: extended Cardoso, extended cyclomatic and EMD
 with empty traces

---
 pm4py/algo/evaluation/earth_mover_distance/variants/pyemd.py  | 3 ++-
 pm4py/algo/evaluation/simplicity/variants/extended_cardoso.py | 4 ++--
 .../evaluation/simplicity/variants/extended_cyclomatic.py     | 2 +-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/pm4py/algo/evaluation/earth_mover_distance/variants/pyemd.py b/pm4py/algo/evaluation/earth_mover_distance/variants/pyemd.py
index 0d622c9..ffb2e63 100644
--- a/pm4py/algo/evaluation/earth_mover_distance/variants/pyemd.py
+++ b/pm4py/algo/evaluation/earth_mover_distance/variants/pyemd.py
@@ -42,7 +42,8 @@ def normalized_levensthein(s1, s2):
     dist
         Distance
     """
-    return float(string_distance.levenshtein(s1, s2)) / float(max(len(s1), len(s2)))
+    # the maximum length is zero only when comparing two empty traces
+    return float(string_distance.levenshtein(s1, s2)) / float(max(len(s1), len(s2), 1))
 
 
 def get_act_correspondence(activities, parameters=None):
diff --git a/pm4py/algo/evaluation/simplicity/variants/extended_cardoso.py b/pm4py/algo/evaluation/simplicity/variants/extended_cardoso.py
index f8dc3fa..7bae5c7 100644
--- a/pm4py/algo/evaluation/simplicity/variants/extended_cardoso.py
+++ b/pm4py/algo/evaluation/simplicity/variants/extended_cardoso.py
@@ -44,8 +44,8 @@ def apply(petri_net: PetriNet, parameters: Optional[Dict[Any, Any]] = None) -> f
     for place in petri_net.places:
         targets = set()
         for out_arc in place.out_arcs:
-            for out_arc2 in out_arc.target.out_arcs:
-                targets.add(out_arc2.target)
+            # distinct sets of places reachable in one step
+            targets.add(frozenset(out_arc2.target for out_arc2 in out_arc.target.out_arcs))
         ext_card += len(targets)
 
     return ext_card
diff --git a/pm4py/algo/evaluation/simplicity/variants/extended_cyclomatic.py b/pm4py/algo/evaluation/simplicity/variants/extended_cyclomatic.py
index e42cbf5..5c61ca1 100644
--- a/pm4py/algo/evaluation/simplicity/variants/extended_cyclomatic.py
+++ b/pm4py/algo/evaluation/simplicity/variants/extended_cyclomatic.py
@@ -56,7 +56,7 @@ def apply(petri_net: PetriNet, im: Optional[Marking] = None, parameters: Optiona
 
     for n in reach_graph.states:
         for n2 in n.outgoing:
-            G.add_edge(n, n2)
+            G.add_edge(n.name, n2.to_state.name)
 
     sg = list(nx_utils.strongly_connected_components(G))
 
-- 
2.43.0


From 57909aa185d6bd2ec96722cbc4a1673f11bf56ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:00 +0000
Subject: [PATCH 035/104] fix: footprints and minimum trace length of inclusive
 choices

---
 pm4py/algo/discovery/footprints/tree/variants/bottomup.py | 6 ++++++
 pm4py/objects/process_tree/utils/bottomup.py              | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/discovery/footprints/tree/variants/bottomup.py b/pm4py/algo/discovery/footprints/tree/variants/bottomup.py
index a06ac77..6ac98a0 100644
--- a/pm4py/algo/discovery/footprints/tree/variants/bottomup.py
+++ b/pm4py/algo/discovery/footprints/tree/variants/bottomup.py
@@ -193,6 +193,12 @@ def get_footprints_parallel(node, footprints_dictio):
             j = j + 1
         i = i + 1
 
+    if node.operator == Operator.OR:
+        # in an inclusive choice, only one of the children needs to be executed
+        skippable = any(footprints_dictio[n0][SKIPPABLE] for n0 in node.children)
+        activities_always_happening = set.intersection(
+            *(footprints_dictio[n0][ACTIVITIES_ALWAYS_HAPPENING] for n0 in node.children))
+
     sequence, parallel = fix_fp(sequence, parallel)
 
     return {START_ACTIVITIES: start_activities, END_ACTIVITIES: end_activities, ACTIVITIES: activities,
diff --git a/pm4py/objects/process_tree/utils/bottomup.py b/pm4py/objects/process_tree/utils/bottomup.py
index 1243216..66c9000 100644
--- a/pm4py/objects/process_tree/utils/bottomup.py
+++ b/pm4py/objects/process_tree/utils/bottomup.py
@@ -183,9 +183,9 @@ def get_min_length_dict(node, min_length_dict):
             min_length_dict[node] = 0
         else:
             min_length_dict[node] = 1
-    elif node.operator == Operator.XOR:
+    elif node.operator == Operator.XOR or node.operator == Operator.OR:
         min_length_dict[node] = min(min_length_dict[x] for x in node.children)
-    elif node.operator == Operator.PARALLEL or node.operator == Operator.SEQUENCE or node.operator == Operator.OR:
+    elif node.operator == Operator.PARALLEL or node.operator == Operator.SEQUENCE:
         min_length_dict[node] = sum(min_length_dict[x] for x in node.children)
     elif node.operator == Operator.LOOP:
         min_length_dict[node] = min_length_dict[node.children[0]]
-- 
2.43.0


From fc484d239b48edb73bfa0fbe819ada45170d35a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:00 +0000
Subject: [PATCH 036/104] fix: footprints of nets: disjoint relations with
 duplicate labels, eventually enabled transitions through silent ones

---
 .../footprints/petri/variants/reach_graph.py      |  3 ++-
 pm4py/objects/petri_net/utils/align_utils.py      | 15 ++++++---------
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/pm4py/algo/discovery/footprints/petri/variants/reach_graph.py b/pm4py/algo/discovery/footprints/petri/variants/reach_graph.py
index 92bf741..27ae6c9 100644
--- a/pm4py/algo/discovery/footprints/petri/variants/reach_graph.py
+++ b/pm4py/algo/discovery/footprints/petri/variants/reach_graph.py
@@ -88,7 +88,8 @@ def apply(net: PetriNet, im: Marking, parameters: Optional[Dict[Any, Any]] = Non
     sequence = {(x, y) for (x, y) in sequence if not (x, y) in parallel}
 
     parallel = {(x.label, y.label) for (x, y) in parallel}
-    sequence = {(x.label, y.label) for (x, y) in sequence}
+    # with duplicate labels, a pair of activities may already be in the parallel relation
+    sequence = {(x.label, y.label) for (x, y) in sequence}.difference(parallel)
 
     par_els = {(x[0], x[1]) for x in sequence if (x[1], x[0]) in sequence}
     for el in par_els:
diff --git a/pm4py/objects/petri_net/utils/align_utils.py b/pm4py/objects/petri_net/utils/align_utils.py
index b7a1bd9..d8f00c3 100644
--- a/pm4py/objects/petri_net/utils/align_utils.py
+++ b/pm4py/objects/petri_net/utils/align_utils.py
@@ -442,20 +442,17 @@ def get_visible_transitions_eventually_enabled_by_marking(net, marking):
     """
     all_enabled_transitions = sorted(list(semantics.enabled_transitions(net, marking)),
                                      key=lambda x: (str(x.name), id(x)))
-    initial_all_enabled_transitions_marking_dictio = {}
-    all_enabled_transitions_marking_dictio = {}
-    for trans in all_enabled_transitions:
-        all_enabled_transitions_marking_dictio[trans] = marking
-        initial_all_enabled_transitions_marking_dictio[trans] = marking
+    # the same transition may be enabled in several of the markings: each occurrence is paired with its own marking
+    all_enabled_transitions_markings = [marking] * len(all_enabled_transitions)
     visible_transitions = set()
     visited_transitions = set()
 
     i = 0
     while i < len(all_enabled_transitions):
         t = all_enabled_transitions[i]
-        marking_copy = copy(all_enabled_transitions_marking_dictio[t])
+        marking_copy = copy(all_enabled_transitions_markings[i])
 
-        if repr([t, marking_copy]) not in visited_transitions:
+        if (t, marking_copy) not in visited_transitions:
             if t.label is not None:
                 visible_transitions.add(t)
             else:
@@ -465,8 +462,8 @@ def get_visible_transitions_eventually_enabled_by_marking(net, marking):
                                                      key=lambda x: (str(x.name), id(x)))
                     for t2 in new_enabled_transitions:
                         all_enabled_transitions.append(t2)
-                        all_enabled_transitions_marking_dictio[t2] = new_marking
-            visited_transitions.add(repr([t, marking_copy]))
+                        all_enabled_transitions_markings.append(new_marking)
+            visited_transitions.add((t, marking_copy))
         i = i + 1
 
     return visible_transitions
-- 
2.43.0


From aa41d6173a8ffa087f334da09b94aff821d75551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:00 +0000
Subject: [PATCH 037/104] fix: footprint fitness of logs without
 directly-follows pairs

---
 pm4py/algo/conformance/footprints/util/evaluation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/footprints/util/evaluation.py b/pm4py/algo/conformance/footprints/util/evaluation.py
index d7894f4..69de425 100644
--- a/pm4py/algo/conformance/footprints/util/evaluation.py
+++ b/pm4py/algo/conformance/footprints/util/evaluation.py
@@ -90,8 +90,12 @@ def fp_fitness(fp_log, fp_model, conf_results, parameters=None):
         fitness = ((1.0 - sum_dev / sum_dfg) * (num_sequence_log + num_parallel_log) + (
                     num_start_activities_log + num_end_activities_log - num_start_activities_dev - num_end_activities_dev)) / (
                            num_sequence_log + num_parallel_log + num_start_activities_log + num_end_activities_log)
+    elif num_start_activities_log + num_end_activities_log > 0:
+        # no directly-follows pair in the log: only the start/end activities can deviate
+        fitness = (num_start_activities_log + num_end_activities_log - num_start_activities_dev - num_end_activities_dev) / (
+                num_start_activities_log + num_end_activities_log)
     else:
-        # return fitness 1.0 if DFG is empty
+        # return fitness 1.0 if the log contains no event
         fitness = 1.0
 
     if fit_traces is not None:
-- 
2.43.0


From 7cdfbe8e7505a88f6919ad12e32b602f87fff128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:11 +0000
Subject: [PATCH 038/104] fix: DECLARE conformance follows the template
 semantics

---
 .../conformance/declare/variants/classic.py   | 162 +++++++-----------
 1 file changed, 58 insertions(+), 104 deletions(-)

diff --git a/pm4py/algo/conformance/declare/variants/classic.py b/pm4py/algo/conformance/declare/variants/classic.py
index d74d5d9..3e71e6f 100644
--- a/pm4py/algo/conformance/declare/variants/classic.py
+++ b/pm4py/algo/conformance/declare/variants/classic.py
@@ -18,7 +18,7 @@
 from enum import Enum
 from pm4py.objects.log.obj import EventLog
 import pandas as pd
-from typing import Union, Dict, Optional, Any, List
+from typing import Union, Dict, Optional, Any, List, Tuple
 from pm4py.algo.discovery.declare.templates import *
 from pm4py.util import exec_utils, constants, xes_constants, pandas_utils
 from collections import Counter
@@ -109,34 +109,43 @@ def __check_succession(trace: List[str], model: Dict[str, Dict[Any, Dict[str, in
                        act_idxs: Dict[str, List[int]], parameters: Optional[Dict[Any, Any]] = None):
     if SUCCESSION in model:
         for act_couple in model[SUCCESSION]:
-            if (not act_couple[0] in trace or not act_couple[1] in trace) or min(act_idxs[act_couple[0]]) > min(
-                    act_idxs[act_couple[1]]) or max(act_idxs[act_couple[0]]) > max(act_idxs[act_couple[1]]):
+            idxs1, idxs2 = act_idxs.get(act_couple[0], []), act_idxs.get(act_couple[1], [])
+            if (idxs1 or idxs2) and (not idxs1 or not idxs2 or min(idxs1) > min(idxs2) or max(idxs1) > max(idxs2)):
                 trace_dict["deviations"].append([SUCCESSION, act_couple])
 
 
+def __is_alt_response(act_couple: Tuple[str, str], act_idxs: Dict[str, List[int]]) -> bool:
+    """ each occurrence of the first activity is followed by the second one before the first one recurs """
+    idxs1, idxs2 = act_idxs.get(act_couple[0], []), act_idxs.get(act_couple[1], [])
+    bounds = idxs1 + [float("inf")]
+    return all(any(bounds[i] < x < bounds[i + 1] for x in idxs2) for i in range(len(idxs1)))
+
+
+def __is_chain_response(act_couple: Tuple[str, str], act_idxs: Dict[str, List[int]]) -> bool:
+    """ each occurrence of the first activity is immediately followed by the second one """
+    idxs1, idxs2 = act_idxs.get(act_couple[0], []), act_idxs.get(act_couple[1], [])
+    return all(i + 1 in idxs2 for i in idxs1)
+
+
+def __is_alt_precedence(act_couple: Tuple[str, str], act_idxs: Dict[str, List[int]]) -> bool:
+    """ before each occurrence of the second activity, the first one occurs (after the previous occurrence) """
+    idxs1, idxs2 = act_idxs.get(act_couple[0], []), act_idxs.get(act_couple[1], [])
+    bounds = [-1] + idxs2
+    return all(any(bounds[i] < x < bounds[i + 1] for x in idxs1) for i in range(len(idxs2)))
+
+
+def __is_chain_precedence(act_couple: Tuple[str, str], act_idxs: Dict[str, List[int]]) -> bool:
+    """ each occurrence of the second activity is immediately preceded by the first one """
+    idxs1, idxs2 = act_idxs.get(act_couple[0], []), act_idxs.get(act_couple[1], [])
+    return all(i - 1 in idxs1 for i in idxs2)
+
+
 def __check_alt_response(trace: List[str], model: Dict[str, Dict[Any, Dict[str, int]]],
                          trace_dict: Dict[str, List[Any]], act_idxs: Dict[str, List[int]],
                          parameters: Optional[Dict[Any, Any]] = None):
     if ALTRESPONSE in model:
-        for act_couple in model[RESPONSE]:
-            spec_idxs = []
-            if act_couple[0] in trace:
-                spec_idxs = spec_idxs + [(act_couple[0], i) for i in act_idxs[act_couple[0]]]
-            if act_couple[1] in trace:
-                spec_idxs = spec_idxs + [(act_couple[1], i) for i in act_idxs[act_couple[1]]]
-            spec_idxs = sorted(spec_idxs, key=lambda x: (x[1], x[0]))
-            while spec_idxs:
-                if spec_idxs[0][0] != act_couple[0]:
-                    del spec_idxs[0]
-                else:
-                    break
-            is_ok = True
-            for i in range(len(spec_idxs)):
-                if i % 2 == 0 and (spec_idxs[i][0] != act_couple[0] or i == len(spec_idxs) - 1 or spec_idxs[i + 1][0] !=
-                                   act_couple[1]):
-                    is_ok = False
-                    break
-            if not is_ok:
+        for act_couple in model[ALTRESPONSE]:
+            if not __is_alt_response(act_couple, act_idxs):
                 trace_dict["deviations"].append([ALTRESPONSE, act_couple])
 
 
@@ -145,24 +154,7 @@ def __check_chain_response(trace: List[str], model: Dict[str, Dict[Any, Dict[str
                            parameters: Optional[Dict[Any, Any]] = None):
     if CHAINRESPONSE in model:
         for act_couple in model[CHAINRESPONSE]:
-            spec_idxs = []
-            if act_couple[0] in trace:
-                spec_idxs = spec_idxs + [(act_couple[0], i) for i in act_idxs[act_couple[0]]]
-            if act_couple[1] in trace:
-                spec_idxs = spec_idxs + [(act_couple[1], i) for i in act_idxs[act_couple[1]]]
-            spec_idxs = sorted(spec_idxs, key=lambda x: (x[1], x[0]))
-            while spec_idxs:
-                if spec_idxs[0][0] != act_couple[0]:
-                    del spec_idxs[0]
-                else:
-                    break
-            is_ok = True
-            for i in range(len(spec_idxs)):
-                if i % 2 == 0 and (spec_idxs[i][0] != act_couple[0] or i == len(spec_idxs) - 1 or spec_idxs[i + 1][0] !=
-                                   act_couple[1] or spec_idxs[i + 1][1] != spec_idxs[i][1] + 1):
-                    is_ok = False
-                    break
-            if not is_ok:
+            if not __is_chain_response(act_couple, act_idxs):
                 trace_dict["deviations"].append([CHAINRESPONSE, act_couple])
 
 
@@ -171,24 +163,7 @@ def __check_alt_precedence(trace: List[str], model: Dict[str, Dict[Any, Dict[str
                            parameters: Optional[Dict[Any, Any]] = None):
     if ALTPRECEDENCE in model:
         for act_couple in model[ALTPRECEDENCE]:
-            spec_idxs = []
-            if act_couple[0] in trace:
-                spec_idxs = spec_idxs + [(act_couple[0], i) for i in act_idxs[act_couple[0]]]
-            if act_couple[1] in trace:
-                spec_idxs = spec_idxs + [(act_couple[1], i) for i in act_idxs[act_couple[1]]]
-            spec_idxs = sorted(spec_idxs, key=lambda x: (x[1], x[0]))
-            while len(spec_idxs) > 1:
-                if spec_idxs[1][0] != act_couple[1]:
-                    del spec_idxs[0]
-                else:
-                    break
-            is_ok = True
-            for i in range(len(spec_idxs)):
-                if i % 2 == 0 and (spec_idxs[i][0] != act_couple[0] or i == len(spec_idxs) - 1 or spec_idxs[i + 1][0] !=
-                                   act_couple[1]):
-                    is_ok = False
-                    break
-            if not is_ok:
+            if not __is_alt_precedence(act_couple, act_idxs):
                 trace_dict["deviations"].append([ALTPRECEDENCE, act_couple])
 
 
@@ -197,24 +172,7 @@ def __check_chain_precedence(trace: List[str], model: Dict[str, Dict[Any, Dict[s
                              parameters: Optional[Dict[Any, Any]] = None):
     if CHAINPRECEDENCE in model:
         for act_couple in model[CHAINPRECEDENCE]:
-            spec_idxs = []
-            if act_couple[0] in trace:
-                spec_idxs = spec_idxs + [(act_couple[0], i) for i in act_idxs[act_couple[0]]]
-            if act_couple[1] in trace:
-                spec_idxs = spec_idxs + [(act_couple[1], i) for i in act_idxs[act_couple[1]]]
-            spec_idxs = sorted(spec_idxs, key=lambda x: (x[1], x[0]))
-            while len(spec_idxs) > 1:
-                if spec_idxs[1][0] != act_couple[1]:
-                    del spec_idxs[0]
-                else:
-                    break
-            is_ok = True
-            for i in range(len(spec_idxs)):
-                if i % 2 == 0 and (spec_idxs[i][0] != act_couple[0] or i == len(spec_idxs) - 1 or spec_idxs[i + 1][0] !=
-                                   act_couple[1] or spec_idxs[i + 1][1] != spec_idxs[i][1] + 1):
-                    is_ok = False
-                    break
-            if not is_ok:
+            if not __is_chain_precedence(act_couple, act_idxs):
                 trace_dict["deviations"].append([CHAINPRECEDENCE, act_couple])
 
 
@@ -223,19 +181,7 @@ def __check_alt_succession(trace: List[str], model: Dict[str, Dict[Any, Dict[str
                            parameters: Optional[Dict[Any, Any]] = None):
     if ALTSUCCESSION in model:
         for act_couple in model[ALTSUCCESSION]:
-            spec_idxs = []
-            if act_couple[0] in trace:
-                spec_idxs = spec_idxs + [(act_couple[0], i) for i in act_idxs[act_couple[0]]]
-            if act_couple[1] in trace:
-                spec_idxs = spec_idxs + [(act_couple[1], i) for i in act_idxs[act_couple[1]]]
-            spec_idxs = sorted(spec_idxs, key=lambda x: (x[1], x[0]))
-            is_ok = True
-            for i in range(len(spec_idxs)):
-                if i % 2 == 0 and (spec_idxs[i][0] != act_couple[0] or i == len(spec_idxs) - 1 or spec_idxs[i + 1][0] !=
-                                   act_couple[1]):
-                    is_ok = False
-                    break
-            if not is_ok:
+            if not (__is_alt_response(act_couple, act_idxs) and __is_alt_precedence(act_couple, act_idxs)):
                 trace_dict["deviations"].append([ALTSUCCESSION, act_couple])
 
 
@@ -244,22 +190,29 @@ def __check_chain_succession(trace: List[str], model: Dict[str, Dict[Any, Dict[s
                              parameters: Optional[Dict[Any, Any]] = None):
     if CHAINSUCCESSION in model:
         for act_couple in model[CHAINSUCCESSION]:
-            spec_idxs = []
-            if act_couple[0] in trace:
-                spec_idxs = spec_idxs + [(act_couple[0], i) for i in act_idxs[act_couple[0]]]
-            if act_couple[1] in trace:
-                spec_idxs = spec_idxs + [(act_couple[1], i) for i in act_idxs[act_couple[1]]]
-            spec_idxs = sorted(spec_idxs, key=lambda x: (x[1], x[0]))
-            is_ok = True
-            for i in range(len(spec_idxs)):
-                if i % 2 == 0 and (spec_idxs[i][0] != act_couple[0] or i == len(spec_idxs) - 1 or spec_idxs[i + 1][0] !=
-                                   act_couple[1] or spec_idxs[i + 1][1] != spec_idxs[i][1] + 1):
-                    is_ok = False
-                    break
-            if not is_ok:
+            if not (__is_chain_response(act_couple, act_idxs) and __is_chain_precedence(act_couple, act_idxs)):
                 trace_dict["deviations"].append([CHAINSUCCESSION, act_couple])
 
 
+def __check_non_succession(trace: List[str], model: Dict[str, Dict[Any, Dict[str, int]]],
+                           trace_dict: Dict[str, List[Any]], act_idxs: Dict[str, List[int]],
+                           parameters: Optional[Dict[Any, Any]] = None):
+    if NONSUCCESSION in model:
+        for act_couple in model[NONSUCCESSION]:
+            if act_couple[0] in act_idxs and act_couple[1] in act_idxs:
+                if min(act_idxs[act_couple[0]]) < max(act_idxs[act_couple[1]]):
+                    trace_dict["deviations"].append([NONSUCCESSION, act_couple])
+
+
+def __check_non_chain_succession(trace: List[str], model: Dict[str, Dict[Any, Dict[str, int]]],
+                                 trace_dict: Dict[str, List[Any]], act_idxs: Dict[str, List[int]],
+                                 parameters: Optional[Dict[Any, Any]] = None):
+    if NONCHAINSUCCESSION in model:
+        for act_couple in model[NONCHAINSUCCESSION]:
+            if any(i + 1 in act_idxs.get(act_couple[1], []) for i in act_idxs.get(act_couple[0], [])):
+                trace_dict["deviations"].append([NONCHAINSUCCESSION, act_couple])
+
+
 def apply_list(projected_log: List[List[str]], model: Dict[str, Dict[Any, Dict[str, int]]],
                parameters: Optional[Dict[Any, Any]] = None) -> List[Dict[str, Any]]:
     if parameters is None:
@@ -298,10 +251,11 @@ def apply_list(projected_log: List[List[str]], model: Dict[str, Dict[Any, Dict[s
         __check_alt_succession(trace, model, ret, act_idxs, parameters)
         __check_chain_succession(trace, model, ret, act_idxs, parameters)
         __check_absence(trace, model, ret, parameters)
-        __check_non_coexistence(trace, model, ret, parameters)
+        __check_non_succession(trace, model, ret, act_idxs, parameters)
+        __check_non_chain_succession(trace, model, ret, act_idxs, parameters)
 
         ret["no_dev_total"] = len(ret["deviations"])
-        ret["dev_fitness"] = 1 - ret["no_dev_total"] / ret["no_constr_total"]
+        ret["dev_fitness"] = 1 - ret["no_dev_total"] / ret["no_constr_total"] if ret["no_constr_total"] > 0 else 1.0
         ret["is_fit"] = ret["no_dev_total"] == 0
 
         conf_cases.append(ret)
-- 
2.43.0


From cfa4e01066c4a7477f57f99bac3118f46d591c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:11 +0000
Subject: [PATCH 039/104] fix: DECLARE discovery follows the template semantics

---
 .../discovery/declare/variants/classic.py     | 168 ++++++++----------
 1 file changed, 73 insertions(+), 95 deletions(-)

diff --git a/pm4py/algo/discovery/declare/variants/classic.py b/pm4py/algo/discovery/declare/variants/classic.py
index 6c25f7e..2345f2d 100644
--- a/pm4py/algo/discovery/declare/variants/classic.py
+++ b/pm4py/algo/discovery/declare/variants/classic.py
@@ -36,6 +36,11 @@ class Parameters(Enum):
     ALLOWED_TEMPLATES = "allowed_templates"
 
 
+REQUIRED_TEMPLATES = {ABSENCE: {EXISTENCE}, SUCCESSION: {RESPONSE, PRECEDENCE},
+                      ALTSUCCESSION: {ALTRESPONSE, ALTPRECEDENCE}, CHAINSUCCESSION: {CHAINRESPONSE, CHAINPRECEDENCE},
+                      COEXISTENCE: {RESPONDED_EXISTENCE}, NONCOEXISTENCE: {COEXISTENCE, RESPONDED_EXISTENCE}}
+
+
 def __rule_existence_column(act: str) -> Tuple[str, str]:
     return (EXISTENCE, act)
 
@@ -139,6 +144,8 @@ def exactly_one_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str, str
                     rules[__rule_exactly_one_column(act)] = 1
                 else:
                     rules[__rule_exactly_one_column(act)] = -1
+            else:
+                rules[__rule_exactly_one_column(act)] = -1
 
 
 def init_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str, str, str]], int], trace: Collection[str],
@@ -146,7 +153,7 @@ def init_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str, str, str]]
                         allowed_templates: Collection[str]):
     if INIT in allowed_templates:
         for act in activities:
-            if act == trace[0]:
+            if len(trace) > 0 and act == trace[0]:
                 rules[__rule_init_column(act)] = 1
             else:
                 rules[__rule_init_column(act)] = -1
@@ -189,7 +196,7 @@ def precedence_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str, str,
             for act2 in activities:
                 if act2 != act:
                     if act2 not in act_counter:
-                        pass
+                        rules[__rule_precedence(act2, act)] = -1
                     else:
                         if act_idxs[act2][0] < act_idxs[act][0]:
                             rules[__rule_precedence(act2, act)] = 1
@@ -204,22 +211,12 @@ def altresponse_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str, str
         for act in act_counter:
             for act2 in activities:
                 if act2 != act:
-                    if act2 not in act_counter:
-                        rules[__rule_alternate_response(act, act2)] = -1
-                    else:
-                        is_ok_alt_resp = False
-                        if len(act_idxs[act]) == len(act_idxs[act2]):
-                            lenn = len(act_idxs[act])
-                            is_ok_alt_resp = True
-
-                            for i in range(lenn):
-                                if act_idxs[act][i] > act_idxs[act2][i] or (
-                                        i < lenn - 1 and act_idxs[act][i + 1] < act_idxs[act2][i]):
-                                    is_ok_alt_resp = False
-                                    break
-                                elif act_idxs[act][i] + 1 != act_idxs[act2][i]:
-                                    pass
-                        rules[__rule_alternate_response(act, act2)] = 1 if is_ok_alt_resp else -1
+                    # between each occurrence of act and the next one (or the end), act2 occurs
+                    idxs2 = act_idxs[act2] if act2 in act_counter else []
+                    bounds = act_idxs[act] + [len(trace)]
+                    is_ok_alt_resp = all(
+                        any(bounds[i] < x < bounds[i + 1] for x in idxs2) for i in range(len(bounds) - 1))
+                    rules[__rule_alternate_response(act, act2)] = 1 if is_ok_alt_resp else -1
 
 
 def chainresponse_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str, str, str]], int], trace: Collection[str],
@@ -229,23 +226,10 @@ def chainresponse_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str, s
         for act in act_counter:
             for act2 in activities:
                 if act2 != act:
-                    if act2 not in act_counter:
-                        rules[__rule_chain_response(act, act2)] = -1
-                    else:
-                        is_ok_chain_resp = False
-                        if len(act_idxs[act]) == len(act_idxs[act2]):
-                            lenn = len(act_idxs[act])
-                            is_ok_chain_resp = True
-
-                            for i in range(lenn):
-                                if act_idxs[act][i] > act_idxs[act2][i] or (
-                                        i < lenn - 1 and act_idxs[act][i + 1] < act_idxs[act2][i]):
-                                    is_ok_chain_resp = False
-                                    break
-                                elif act_idxs[act][i] + 1 != act_idxs[act2][i]:
-                                    is_ok_chain_resp = False
-                                    break
-                        rules[__rule_chain_response(act, act2)] = 1 if is_ok_chain_resp else -1
+                    # each occurrence of act is immediately followed by act2
+                    idxs2 = set(act_idxs[act2]) if act2 in act_counter else set()
+                    is_ok_chain_resp = all(i + 1 in idxs2 for i in act_idxs[act])
+                    rules[__rule_chain_response(act, act2)] = 1 if is_ok_chain_resp else -1
 
 
 def altprecedence_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str, str, str]], int], trace: Collection[str],
@@ -255,21 +239,12 @@ def altprecedence_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str, s
         for act in act_counter:
             for act2 in activities:
                 if act2 != act:
-                    if act2 not in act_counter:
-                        pass
-                    else:
-                        is_ok_alt_prec = False
-                        if len(act_idxs[act]) == len(act_idxs[act2]):
-                            lenn = len(act_idxs[act])
-                            is_ok_alt_prec = True
-                            for i in range(lenn):
-                                if act_idxs[act2][i] > act_idxs[act][i] or (
-                                        i < lenn - 1 and act_idxs[act2][i + 1] < act_idxs[act][i]):
-                                    is_ok_alt_prec = False
-                                    break
-                                elif act_idxs[act2][i] + 1 != act_idxs[act][i]:
-                                    pass
-                        rules[__rule_alternate_precedence(act2, act)] = 1 if is_ok_alt_prec else -1
+                    # between the previous occurrence of act (or the start) and each occurrence, act2 occurs
+                    idxs2 = act_idxs[act2] if act2 in act_counter else []
+                    bounds = [-1] + act_idxs[act]
+                    is_ok_alt_prec = all(
+                        any(bounds[i] < x < bounds[i + 1] for x in idxs2) for i in range(len(bounds) - 1))
+                    rules[__rule_alternate_precedence(act2, act)] = 1 if is_ok_alt_prec else -1
 
 
 def chainprecedence_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str, str, str]], int],
@@ -279,23 +254,35 @@ def chainprecedence_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str,
         for act in act_counter:
             for act2 in activities:
                 if act2 != act:
-                    if act2 not in act_counter:
-                        pass
-                    else:
-                        is_ok_chain_prec = False
-                        if len(act_idxs[act]) == len(act_idxs[act2]):
-                            lenn = len(act_idxs[act])
-                            is_ok_chain_prec = True
-                            # check alternate and chain response
-                            for i in range(lenn):
-                                if act_idxs[act2][i] > act_idxs[act][i] or (
-                                        i < lenn - 1 and act_idxs[act2][i + 1] < act_idxs[act][i]):
-                                    is_ok_chain_prec = False
-                                    break
-                                elif act_idxs[act2][i] + 1 != act_idxs[act][i]:
-                                    is_ok_chain_prec = False
-                                    break
-                        rules[__rule_chain_precedence(act2, act)] = 1 if is_ok_chain_prec else -1
+                    # each occurrence of act is immediately preceded by act2
+                    idxs2 = set(act_idxs[act2]) if act2 in act_counter else set()
+                    is_ok_chain_prec = all(i - 1 in idxs2 for i in act_idxs[act])
+                    rules[__rule_chain_precedence(act2, act)] = 1 if is_ok_chain_prec else -1
+
+
+def nonsuccession_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str, str, str]], int],
+                                 trace: Collection[str], activities: Set[str], act_counter: TCounter[str],
+                                 act_idxs: Dict[str, List[int]], allowed_templates: Collection[str]):
+    if NONSUCCESSION in allowed_templates:
+        for act in act_counter:
+            for act2 in activities:
+                if act2 != act:
+                    # no occurrence of act is followed by act2
+                    is_followed = act2 in act_counter and act_idxs[act][0] < act_idxs[act2][-1]
+                    rules[__rule_non_succession(act, act2)] = -1 if is_followed else 1
+
+
+def nonchainsuccession_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str, str, str]], int],
+                                      trace: Collection[str], activities: Set[str], act_counter: TCounter[str],
+                                      act_idxs: Dict[str, List[int]], allowed_templates: Collection[str]):
+    if NONCHAINSUCCESSION in allowed_templates:
+        for act in act_counter:
+            for act2 in activities:
+                if act2 != act:
+                    # no occurrence of act is immediately followed by act2
+                    idxs2 = set(act_idxs[act2]) if act2 in act_counter else set()
+                    is_followed = any(i + 1 in idxs2 for i in act_idxs[act])
+                    rules[__rule_non_chain_succession(act, act2)] = -1 if is_followed else 1
 
 
 def absence_template(table, columns: Collection[str], activities: Set[str],
@@ -442,27 +429,6 @@ def noncoexistence_template(table, columns: Collection[str], activities: Set[str
     return table
 
 
-def nonsuccession_template(table, columns: Collection[str], activities: Set[str],
-                           allowed_templates: Collection[str]) -> pd.DataFrame:
-    if NONSUCCESSION in allowed_templates and SUCCESSION in allowed_templates and RESPONSE in allowed_templates and PRECEDENCE in allowed_templates:
-        for act in activities:
-            for act2 in activities:
-                if act2 != act:
-                    table[__rule_non_succession(act, act2)] = -1 * table[__rule_succession(act, act2)]
-    return table
-
-
-def nonchainsuccession_template(table, columns: Collection[str], activities: Set[str],
-                                allowed_templates: Collection[str]) -> pd.DataFrame:
-    if NONCHAINSUCCESSION in allowed_templates and CHAINSUCCESSION in allowed_templates and CHAINRESPONSE in allowed_templates and CHAINPRECEDENCE in allowed_templates:
-        for act in activities:
-            for act2 in activities:
-                if act2 != act:
-                    table[__rule_non_chain_succession(act, act2)] = -1 * table[
-                        __rule_chain_succession(act, act2)]
-    return table
-
-
 def form_rules_table(log: Union[EventLog, pd.DataFrame],
                          parameters: Optional[Dict[Any, Any]] = None) -> pd.DataFrame:
     if parameters is None:
@@ -486,7 +452,12 @@ def form_rules_table(log: Union[EventLog, pd.DataFrame],
     if activities is None:
         activities = set(y for x in projected_log for y in x)
 
+    requested_templates = set(allowed_templates)
+    # some templates are computed from others
     allowed_templates = set(allowed_templates)
+    for template, required in REQUIRED_TEMPLATES.items():
+        if template in requested_templates:
+            allowed_templates.update(required)
     activities = set(activities)
 
     vars = Counter([tuple([y for y in x if y in activities]) for x in projected_log])
@@ -511,6 +482,8 @@ def form_rules_table(log: Union[EventLog, pd.DataFrame],
         chainresponse_template_step1(rules, trace, activities, act_counter, act_idxs, allowed_templates)
         altprecedence_template_step1(rules, trace, activities, act_counter, act_idxs, allowed_templates)
         chainprecedence_template_step1(rules, trace, activities, act_counter, act_idxs, allowed_templates)
+        nonsuccession_template_step1(rules, trace, activities, act_counter, act_idxs, allowed_templates)
+        nonchainsuccession_template_step1(rules, trace, activities, act_counter, act_idxs, allowed_templates)
 
         for i in range(occs):
             table.append(rules)
@@ -543,8 +516,9 @@ def form_rules_table(log: Union[EventLog, pd.DataFrame],
     table2 = chainsuccession_template(table2, columns, activities, allowed_templates)
     table2 = coexistence_template(table2, columns, activities, allowed_templates)
     table2 = noncoexistence_template(table2, columns, activities, allowed_templates)
-    table2 = nonsuccession_template(table2, columns, activities, allowed_templates)
-    table2 = nonchainsuccession_template(table2, columns, activities, allowed_templates)
+
+    # remove the templates that were only needed to compute the requested ones
+    table2 = {x: y for x, y in table2.items() if x[0] in requested_templates}
 
     return pandas_utils.instantiate_dataframe(table2)
 
@@ -559,7 +533,7 @@ def get_rules_from_rules_df(rules_df, parameters: Optional[Dict[Any, Any]] = Non
     min_confidence_ratio = exec_utils.get_param_value(Parameters.MIN_CONFIDENCE_RATIO, parameters, None)
     rules = {}
 
-    if min_support_ratio is None and min_confidence_ratio is None:
+    if min_support_ratio is None or min_confidence_ratio is None:
         # auto determine the minimum support and confidence ratio by identifying the values for the best feature
         auto_selection_multiplier = exec_utils.get_param_value(Parameters.AUTO_SELECTION_MULTIPLIER, parameters, 0.8)
         cols_prod = []
@@ -571,20 +545,24 @@ def get_rules_from_rules_df(rules_df, parameters: Optional[Dict[Any, Any]] = Non
                 conf_ratio = float(len(col[col == 1])) / float(supp)
                 prod = supp_ratio * conf_ratio
                 cols_prod.append((col_name, prod))
+        if not cols_prod:
+            return rules
         cols_prod = sorted(cols_prod, key=lambda x: (x[1], x[0]), reverse=True)
         col = rules_df[cols_prod[0][0]]
         supp = len(col[col != 0])
-        min_support_ratio = float(supp) / float(len(rules_df)) * auto_selection_multiplier
-        min_confidence_ratio = float(len(col[col == 1])) / float(supp) * auto_selection_multiplier
+        if min_support_ratio is None:
+            min_support_ratio = float(supp) / float(len(rules_df)) * auto_selection_multiplier
+        if min_confidence_ratio is None:
+            min_confidence_ratio = float(len(col[col == 1])) / float(supp) * auto_selection_multiplier
 
     for col_name in rules_df:
         col = rules_df[col_name]
         supp = len(col[col != 0])
 
-        if supp > len(rules_df) * min_support_ratio:
+        if supp > 0 and supp >= len(rules_df) * min_support_ratio:
             conf = len(col[col == 1])
 
-            if conf > supp * min_confidence_ratio:
+            if conf > 0 and conf >= supp * min_confidence_ratio:
                 rule, key = __col_to_dict_rule(col_name)
                 if rule not in rules:
                     rules[rule] = {}
-- 
2.43.0


From 9536eb0033325c425cdbe7f366eaeea4f3fff5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:07 +0000
Subject: [PATCH 040/104] fix: log skeleton relations hold for each occurrence
 of the first activity

---
 pm4py/algo/conformance/log_skeleton/variants/classic.py | 5 ++++-
 pm4py/algo/discovery/log_skeleton/trace_skel.py         | 9 ++++++---
 pm4py/algo/discovery/log_skeleton/variants/classic.py   | 4 ++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/pm4py/algo/conformance/log_skeleton/variants/classic.py b/pm4py/algo/conformance/log_skeleton/variants/classic.py
index dd3becf..bbeebef 100644
--- a/pm4py/algo/conformance/log_skeleton/variants/classic.py
+++ b/pm4py/algo/conformance/log_skeleton/variants/classic.py
@@ -24,6 +24,7 @@ from pm4py.objects.log.obj import EventLog, Trace
 import pandas as pd
 
 from enum import Enum
+from collections import Counter
 from pm4py.util.constants import PARAMETER_CONSTANT_ACTIVITY_KEY, PARAMETER_CONSTANT_CASEID_KEY, CASE_CONCEPT_NAME
 
 
@@ -218,7 +219,9 @@ def apply_actlist(trace, model, parameters=None):
             else:
                 this_constraints = {x for x in model[default_considered_constraints[i]] if x[0] in trace}
                 conf_total += len(this_constraints)
-                setdiff = this_constraints.difference(trace_info[i])
+                # the relation needs to hold for each occurrence of the first activity
+                num_satisfied = Counter(trace_info[i])
+                setdiff = {x for x in this_constraints if num_satisfied[x] < trace_info[-1][x[0]]}
                 dev_total += len(setdiff)
                 if len(setdiff) > 0:
                     ret[Outputs.DEVIATIONS.value].append((default_considered_constraints[i], tuple(setdiff)))
diff --git a/pm4py/algo/discovery/log_skeleton/trace_skel.py b/pm4py/algo/discovery/log_skeleton/trace_skel.py
index f9dd74a..c164a24 100644
--- a/pm4py/algo/discovery/log_skeleton/trace_skel.py
+++ b/pm4py/algo/discovery/log_skeleton/trace_skel.py
@@ -55,7 +55,8 @@ def after(trace):
     rel
         After- inside the trace
     """
-    return list((trace[i], trace[j]) for i in range(len(trace)) for j in range(len(trace)) if j > i)
+    # one pair for each event and activity occurring after the event
+    return list((trace[i], y) for i in range(len(trace)) for y in set(trace[i + 1:]))
 
 
 def before(trace):
@@ -72,7 +73,8 @@ def before(trace):
     rel
         Before- inside the trace
     """
-    return list((trace[i], trace[j]) for i in range(len(trace)) for j in range(len(trace)) if j < i)
+    # one pair for each event and activity occurring before the event
+    return list((trace[i], y) for i in range(len(trace)) for y in set(trace[:i]))
 
 
 def combos(trace):
@@ -89,7 +91,8 @@ def combos(trace):
     rel
         Combos inside the trace
     """
-    return set((x, y) for x in trace for y in trace if x != y)
+    # one pair for each event and other activity of the trace
+    return list((x, y) for x in trace for y in set(trace) if x != y)
 
 
 def directly_follows(trace):
diff --git a/pm4py/algo/discovery/log_skeleton/variants/classic.py b/pm4py/algo/discovery/log_skeleton/variants/classic.py
index dcaa298..8718d51 100644
--- a/pm4py/algo/discovery/log_skeleton/variants/classic.py
+++ b/pm4py/algo/discovery/log_skeleton/variants/classic.py
@@ -281,10 +281,10 @@ def apply(log: Union[EventLog, pd.DataFrame], parameters: Optional[Dict[Union[st
     ret[Outputs.EQUIVALENCE.value] = equivalence(logs_traces, all_activs, noise_threshold=noise_threshold)
     ret[Outputs.ALWAYS_AFTER.value] = always_after(logs_traces, all_activs, noise_threshold=noise_threshold)
     ret[Outputs.ALWAYS_BEFORE.value] = always_before(logs_traces, all_activs, noise_threshold=noise_threshold)
-    ret[Outputs.NEVER_TOGETHER.value] = never_together(logs_traces, all_activs, len(log),
+    ret[Outputs.NEVER_TOGETHER.value] = never_together(logs_traces, all_activs, sum(logs_traces.values()),
                                                        noise_threshold=noise_threshold)
     ret[Outputs.DIRECTLY_FOLLOWS.value] = directly_follows(logs_traces, all_activs, noise_threshold=noise_threshold)
-    ret[Outputs.ACTIV_FREQ.value] = activ_freq(logs_traces, all_activs, len(log), noise_threshold=noise_threshold)
+    ret[Outputs.ACTIV_FREQ.value] = activ_freq(logs_traces, all_activs, sum(logs_traces.values()), noise_threshold=noise_threshold)
 
     return ret
 
-- 
2.43.0


From 6d5985a8a00e4fedff79ee86e241fdb1d72c644c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:41 +0000
Subject: [PATCH 041/104] fix: temporal profile conformance: empty profiles and
 diagnostics dataframes

---
 pm4py/algo/conformance/temporal_profile/algorithm.py          | 2 +-
 pm4py/algo/conformance/temporal_profile/variants/dataframe.py | 3 +++
 pm4py/conformance.py                                          | 4 ++++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/temporal_profile/algorithm.py b/pm4py/algo/conformance/temporal_profile/algorithm.py
index e4ab4b6..cdda936 100644
--- a/pm4py/algo/conformance/temporal_profile/algorithm.py
+++ b/pm4py/algo/conformance/temporal_profile/algorithm.py
@@ -89,7 +89,7 @@ def get_diagnostics_dataframe(elog: Union[EventLog, pd.DataFrame], conf_result:
     if parameters is None:
         parameters = {}
 
-    if pandas_utils.check_is_pandas_dataframe(log):
+    if pandas_utils.check_is_pandas_dataframe(elog):
         case_id_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, constants.CASE_CONCEPT_NAME)
         cases = pandas_utils.format_unique(elog[case_id_key].unique())
     else:
diff --git a/pm4py/algo/conformance/temporal_profile/variants/dataframe.py b/pm4py/algo/conformance/temporal_profile/variants/dataframe.py
index bd9afcd..714e37b 100644
--- a/pm4py/algo/conformance/temporal_profile/variants/dataframe.py
+++ b/pm4py/algo/conformance/temporal_profile/variants/dataframe.py
@@ -90,6 +90,9 @@ def apply(df: pd.DataFrame, temporal_profile: typing.TemporalProfile,
 
     cases = pandas_utils.format_unique(df[case_id_key].unique())
     ret = [[] for c in cases]
+
+    if len(temporal_profile) == 0:
+        return ret
     efg = get_partial_order_dataframe(df, activity_key=activity_key, timestamp_key=timestamp_key,
                                       start_timestamp_key=start_timestamp_key, case_id_glue=case_id_key,
                                       keep_first_following=False, business_hours=business_hours,
diff --git a/pm4py/conformance.py b/pm4py/conformance.py
index d438e2c..615e3f8 100644
--- a/pm4py/conformance.py
+++ b/pm4py/conformance.py
@@ -714,6 +714,10 @@ def conformance_temporal_profile(log: Union[EventLog, pd.DataFrame], temporal_pr
     if check_is_pandas_dataframe(log):
         check_pandas_dataframe_columns(log, activity_key=activity_key, timestamp_key=timestamp_key, case_id_key=case_id_key)
 
+    if return_diagnostics_dataframe and not check_is_pandas_dataframe(log):
+        log = convert_to_event_log(log, case_id_key=case_id_key)
+        case_id_key = None
+
     properties = get_properties(log, activity_key=activity_key, timestamp_key=timestamp_key, case_id_key=case_id_key)
     properties["zeta"] = zeta
 
-- 
2.43.0


From 035ead9fee4ad0674390d5d9f612f559f5c0903f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:13 +0000
Subject: [PATCH 042/104] fix: typed directly-follows graph counts the first
 relation of each case

---
 pm4py/algo/discovery/dfg/variants/clean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/dfg/variants/clean.py b/pm4py/algo/discovery/dfg/variants/clean.py
index 2c99756..b3d204a 100644
--- a/pm4py/algo/discovery/dfg/variants/clean.py
+++ b/pm4py/algo/discovery/dfg/variants/clean.py
@@ -56,7 +56,7 @@ def apply(log: pd.DataFrame, parameters: Optional[Dict[str, Any]] = None) -> DFG
 
     starters = df[(df[aux_act_start] == CONST_PROCESS_START)]
     borders = df[(df[aux_act_end] == CONST_PROCESS_END)]
-    connections = df[((df[aux_act_start] != CONST_PROCESS_START) & (df[aux_act_end] != CONST_PROCESS_END))]
+    connections = df[df[aux_act_end] != CONST_PROCESS_END]
 
     dfg = DFG()
 
-- 
2.43.0


From e60dee79c8ddefe2b0e4f4c8a54c6898612cc452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:13 +0000
Subject: [PATCH 043/104] fix: directly-follows graph algorithm honours the
 aggregation and variant for dataframes

---
 pm4py/algo/discovery/dfg/algorithm.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/dfg/algorithm.py b/pm4py/algo/discovery/dfg/algorithm.py
index 7eb9520..b3e0f67 100644
--- a/pm4py/algo/discovery/dfg/algorithm.py
+++ b/pm4py/algo/discovery/dfg/algorithm.py
@@ -98,11 +98,15 @@ def apply(log: Union[EventLog, EventStream, pd.DataFrame], parameters: Optional[
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_util.DEFAULT_TIMESTAMP_KEY)
     case_id_glue = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, pmutil.constants.CASE_CONCEPT_NAME)
 
-    if pandas_utils.check_is_pandas_dataframe(log) and not variant == Variants.FREQ_TRIPLES:
+    if pandas_utils.check_is_pandas_dataframe(log) and variant not in {Variants.FREQ_TRIPLES, Variants.CASE_ATTRIBUTES}:
+        perf_aggregation_key = exec_utils.get_param_value(performance.Parameters.AGGREGATION_MEASURE, parameters, "mean")
+        if perf_aggregation_key == "stdev":
+            perf_aggregation_key = "std"
         dfg_frequency, dfg_performance = df_statistics.get_dfg_graph(log, measure="both",
                                                                      activity_key=activity_key,
                                                                      timestamp_key=timestamp_key,
                                                                      case_id_glue=case_id_glue,
+                                                                     perf_aggregation_key=perf_aggregation_key,
                                                                      start_timestamp_key=start_timestamp_key)
         if variant in [Variants.PERFORMANCE, Variants.PERFORMANCE_GREEDY]:
             return dfg_performance
-- 
2.43.0


From f21845ba52d036e6a906e021774156282df85b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:13 +0000
Subject: [PATCH 044/104] fix: minimum self distance witnesses use the given
 column names

---
 pm4py/algo/discovery/minimum_self_distance/utils.py | 2 +-
 pm4py/stats.py                                      | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/discovery/minimum_self_distance/utils.py b/pm4py/algo/discovery/minimum_self_distance/utils.py
index caf1d2e..809ca28 100644
--- a/pm4py/algo/discovery/minimum_self_distance/utils.py
+++ b/pm4py/algo/discovery/minimum_self_distance/utils.py
@@ -56,7 +56,7 @@ def derive_msd_witnesses(log: EventLog, msd: Optional[Dict[Any, int]] = None,
     act_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters,
                                          xes_constants.DEFAULT_NAME_KEY)
     alphabet = pm4py.get_event_attribute_values(log, act_key)
-    msd = msd if msd is not None else msd_algo.apply(log, parameters)
+    msd = msd if msd is not None else msd_algo.apply(log, parameters=parameters)
     log = list(map(lambda t: list(map(lambda e: e[act_key], t)), log))
     witnesses = dict()
     for a in alphabet:
diff --git a/pm4py/stats.py b/pm4py/stats.py
index 2644415..365971f 100644
--- a/pm4py/stats.py
+++ b/pm4py/stats.py
@@ -468,7 +468,8 @@ def get_minimum_self_distance_witnesses(log: Union[EventLog, pd.DataFrame], acti
 
     from pm4py.algo.discovery.minimum_self_distance import algorithm as msd_algo
     from pm4py.algo.discovery.minimum_self_distance import utils as msdw_algo
-    return msdw_algo.derive_msd_witnesses(log, msd_algo.apply(log, parameters=get_properties(log, activity_key=activity_key, timestamp_key=timestamp_key, case_id_key=case_id_key)))
+    properties = get_properties(log, activity_key=activity_key, timestamp_key=timestamp_key, case_id_key=case_id_key)
+    return msdw_algo.derive_msd_witnesses(log, msd_algo.apply(log, parameters=properties), parameters=properties)
 
 
 def get_case_arrival_average(log: Union[EventLog, pd.DataFrame], activity_key: str = "concept:name", timestamp_key: str = "time:timestamp", case_id_key: str = "case:concept:name") -> float:
-- 
2.43.0


From 3e41bcce962db6bc59e5e34ed5f621397a3f5db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:12 +0000
Subject: [PATCH 045/104] fix: inductive miner accepts variants as documented

---
 pm4py/algo/discovery/inductive/algorithm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/inductive/algorithm.py b/pm4py/algo/discovery/inductive/algorithm.py
index 71f1c61..e6fbf37 100644
--- a/pm4py/algo/discovery/inductive/algorithm.py
+++ b/pm4py/algo/discovery/inductive/algorithm.py
@@ -14,6 +14,7 @@
     You should have received a copy of the GNU General Public License
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
+from collections import Counter
 from enum import Enum
 from typing import Optional, Dict, Any, Union
 
@@ -67,7 +68,7 @@ def apply(obj: Union[EventLog, pd.DataFrame, DFG, UVCL], parameters: Optional[Di
         idfg = InductiveDFG(dfg=obj, skip=False)
         process_tree = imd.apply(IMDataStructureDFG(idfg), parameters)
     else:
-        if type(obj) in [UVCL]:
+        if isinstance(obj, Counter):
             uvcl = obj
         else:
             uvcl = comut.get_variants(comut.project_univariate(obj, key=ack, df_glue=cidk, df_sorting_criterion_key=tk))
-- 
2.43.0


From 93b05954d7827d1b77b33a509983bfffb76df127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:12 +0000
Subject: [PATCH 046/104] fix: inductive miner on directly-follows graphs
 handles several redo parts and sub-graphs without start activities

---
 pm4py/algo/discovery/inductive/base_case/single_activity.py | 2 +-
 pm4py/algo/discovery/inductive/cuts/loop.py                 | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pm4py/algo/discovery/inductive/base_case/single_activity.py b/pm4py/algo/discovery/inductive/base_case/single_activity.py
index 3f8a74c..77ffe07 100644
--- a/pm4py/algo/discovery/inductive/base_case/single_activity.py
+++ b/pm4py/algo/discovery/inductive/base_case/single_activity.py
@@ -46,4 +46,4 @@ class SingleActivityBaseCaseDFG(BaseCase[IMDataStructureDFG]):
 
     @classmethod
     def leaf(cls, obj=IMDataStructureDFG, parameters: Optional[Dict[str, Any]] = None) -> ProcessTree:
-        return ProcessTree(label=list(obj.dfg.start_activities)[0])
+        return ProcessTree(label=list(set(obj.dfg.start_activities).union(obj.dfg.end_activities))[0])
diff --git a/pm4py/algo/discovery/inductive/cuts/loop.py b/pm4py/algo/discovery/inductive/cuts/loop.py
index 6cb178d..d8067aa 100644
--- a/pm4py/algo/discovery/inductive/cuts/loop.py
+++ b/pm4py/algo/discovery/inductive/cuts/loop.py
@@ -202,7 +202,7 @@ class LoopCutDFG(LoopCut[IMDataStructureDFG]):
     def project(cls, obj: IMDataStructureUVCL, groups: List[Collection[Any]], parameters: Optional[Dict[str, Any]] = None) -> List[IMDataStructureDFG]:
         dfg = obj.dfg
         dfgs = []
-        skippable = [False, False]
+        skippable = [False for g in groups]
         for gind, g in enumerate(groups):
             dfn = DFG()
             for (a, b) in dfg.graph:
@@ -221,7 +221,7 @@ class LoopCutDFG(LoopCut[IMDataStructureDFG]):
                         dfn.end_activities[a] = dfg.end_activities[a]
                     else:
                         skippable[1] = True
-            elif gind == 1:
+            else:
                 for a in g:
                     dfn.start_activities[a] = 1
                     dfn.end_activities[a] = 1
-- 
2.43.0


From de5d6f8ead600fb254e56afb3ac5009805db86fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:20 +0000
Subject: [PATCH 047/104] fix: alpha+ miner computes causal pairs, length-one
 loops and the final place correctly

---
 pm4py/algo/discovery/alpha/variants/plus.py | 32 ++++++++++-----------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/pm4py/algo/discovery/alpha/variants/plus.py b/pm4py/algo/discovery/alpha/variants/plus.py
index 1980c30..70904ef 100644
--- a/pm4py/algo/discovery/alpha/variants/plus.py
+++ b/pm4py/algo/discovery/alpha/variants/plus.py
@@ -101,7 +101,7 @@ def preprocessing(log: EventLog, parameters: Optional[Dict[Union[str, Parameters
                 filtered_trace.append(current)
             if successor in loop_one_list:
                 if not current in loop_one_list:
-                    if current in A:
+                    if successor in A:
                         A[successor].append(current)
                     else:
                         A[successor] = [current]
@@ -332,7 +332,8 @@ def processing(log: EventLog, causal: Tuple[str, str], follows: Tuple[str, str])
                                                                                                             t2[1]):
                         new_alpha_pair = (t1[0] | t2[0], t1[1] | t2[1])
                         if new_alpha_pair not in pairs:
-                            pairs.append((t1[0] | t2[0], t1[1] | t2[1]))
+                            if __check_all_causal(causal, new_alpha_pair[0], new_alpha_pair[1]):
+                                pairs.append((t1[0] | t2[0], t1[1] | t2[1]))
     # maximize pairs
     cleaned_pairs = list(filter(lambda p: __pair_maximizer(pairs, p), pairs))
     # create transitions
@@ -378,18 +379,7 @@ def get_sharp_relation(follows, instance_one, instance_two):
     bool
         Boolean (sharp relation holds?)
     """
-    if instance_one in follows:
-        if instance_two in follows:
-            if not instance_two in follows[instance_one] and not instance_one in follows[instance_two]:
-                return True
-    if not instance_one in follows and not instance_two in follows:
-        return True
-    if instance_one in follows:
-        if instance_two in follows[instance_one]:
-            return False
-    if instance_two in follows:
-        if instance_one in follows[instance_two]:
-            return False
+    return instance_two not in follows.get(instance_one, ()) and instance_one not in follows.get(instance_two, ())
 
 
 def get_sharp_relations_for_sets(follows, set_1, set_2):
@@ -446,6 +436,7 @@ def postprocessing(net: PetriNet, initial_marking: Marking, final_marking: Marki
         label_transition_dict[label] = PetriNet.Transition(label, label)
         net.transitions.add(label_transition_dict[label])
 
+    places_dict = {place.name: place for place in net.places}
     # F L1L
     # Key is specific loop element
     for key, value in A.items():
@@ -457,8 +448,7 @@ def postprocessing(net: PetriNet, initial_marking: Marking, final_marking: Marki
                 in_part = pair_try[0]
                 out_part = pair_try[1]
                 if pair[0].issubset(in_part) and pair[1].issubset(out_part):
-                    pair_try_place = PetriNet.Place(str(pair_try))
-                    net.places.add(pair_try_place)
+                    pair_try_place = places_dict[str(pair_try)]
                     add_arc_from_to(label_transition_dict[key], pair_try_place, net)
                     add_arc_from_to(pair_try_place, label_transition_dict[key], net)
     return net, initial_marking, final_marking
@@ -508,6 +498,14 @@ def apply(trace_log: EventLog, parameters: Optional[Dict[Union[str, Parameters],
     return net, initial_marking, final_marking
 
 
+def __check_all_causal(causal, set_1, set_2):
+    for item_1 in set_1:
+        for item_2 in set_2:
+            if item_2 not in causal.get(item_1, ()):
+                return False
+    return True
+
+
 def __pair_maximizer(alpha_pairs, pair):
     """
     Helping method, maximizing pairs
@@ -593,7 +591,7 @@ def remove_final_hidden_if_possible(net: PetriNet, fm: Marking):
     source_places_last_hidden = [x.source for x in last_hidden.in_arcs]
     removal_possible = len(source_places_last_hidden) == 1
     for place in source_places_last_hidden:
-        if len(place.out_arcs) > 1:
+        if len(place.out_arcs) > 1 or len(place.in_arcs) == 0:
             removal_possible = False
             break
         else:
-- 
2.43.0


From 36581fbf95a2b162a33b650fb89ba43ff1e0f6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:10 +0000
Subject: [PATCH 048/104] fix: heuristics miner finds length-two loops between
 activities without other dependencies

---
 .../discovery/heuristics/variants/classic.py  | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/pm4py/algo/discovery/heuristics/variants/classic.py b/pm4py/algo/discovery/heuristics/variants/classic.py
index abe06cb..8f677f0 100644
--- a/pm4py/algo/discovery/heuristics/variants/classic.py
+++ b/pm4py/algo/discovery/heuristics/variants/classic.py
@@ -480,10 +480,21 @@ def calculate(heu_net, dependency_thresh=defaults.DEFAULT_DEPENDENCY_THRESH,
         heu_net.nodes[node].calculate_and_measure_in(and_measure_thresh=and_measure_thresh)
         heu_net.nodes[node].calculate_loops_length_two(heu_net.dfg_matrix, heu_net.freq_triples_matrix,
                                                        loops_length_two_thresh=loops_length_two_thresh)
-    nodes = list(heu_net.nodes.keys())
+    # considers also the activities that are not yet in the net because they occur only in loops of length two
+    nodes = dict(heu_net.nodes)
+    for act in heu_net.freq_triples_matrix:
+        if act not in nodes and act in heu_net.activities_occurrences:
+            nodes[act] = Node(heu_net, act, heu_net.activities_occurrences[act],
+                              is_start_node=(act in heu_net.start_activities),
+                              is_end_node=(act in heu_net.end_activities),
+                              default_edges_color=heu_net.default_edges_color[0],
+                              node_type=heu_net.node_type, net_name=heu_net.net_name[0],
+                              nodes_dictionary=heu_net.nodes)
+            nodes[act].calculate_loops_length_two(heu_net.dfg_matrix, heu_net.freq_triples_matrix,
+                                                  loops_length_two_thresh=loops_length_two_thresh)
     added_loops = set()
     for n1 in nodes:
-        for n2 in heu_net.nodes[n1].loop_length_two:
+        for n2 in nodes[n1].loop_length_two:
             if n1 in heu_net.dfg_matrix and n2 in heu_net.dfg_matrix[n1] and heu_net.dfg_matrix[n1][
                 n2] >= min_dfg_occurrences and n1 in heu_net.activities_occurrences and heu_net.activities_occurrences[
                 n1] >= min_act_count and n2 in heu_net.activities_occurrences and heu_net.activities_occurrences[
@@ -492,6 +503,8 @@ def calculate(heu_net, dependency_thresh=defaults.DEFAULT_DEPENDENCY_THRESH,
                          heu_net.dependency_matrix[n1][n2] >= dependency_thresh) or (
                                 n2 in heu_net.dependency_matrix and n1 in heu_net.dependency_matrix[n2] and
                                 heu_net.dependency_matrix[n2][n1] >= dependency_thresh)):
+                    if n1 not in heu_net.nodes:
+                        heu_net.nodes[n1] = nodes[n1]
                     if n2 not in heu_net.nodes:
                         heu_net.nodes[n2] = Node(heu_net, n2, heu_net.activities_occurrences[n2],
                                                  is_start_node=(n2 in heu_net.start_activities),
@@ -511,7 +524,7 @@ def calculate(heu_net, dependency_thresh=defaults.DEFAULT_DEPENDENCY_THRESH,
                         heu_net.nodes[n1].add_output_connection(heu_net.nodes[n2], 0,
                                                                 v_n1_n2, repr_value=repr_value)
                         heu_net.nodes[n2].add_input_connection(heu_net.nodes[n1], 0,
-                                                               v_n2_n1, repr_value=repr_value)
+                                                               v_n1_n2, repr_value=repr_value)
 
                     if (n2, n1) not in added_loops:
                         repr_value = heu_net.performance_matrix[n2][n1] if n2 in heu_net.performance_matrix and n1 in \
@@ -520,7 +533,7 @@ def calculate(heu_net, dependency_thresh=defaults.DEFAULT_DEPENDENCY_THRESH,
                         heu_net.nodes[n2].add_output_connection(heu_net.nodes[n1], 0,
                                                                 v_n2_n1, repr_value=repr_value)
                         heu_net.nodes[n1].add_input_connection(heu_net.nodes[n2], 0,
-                                                               v_n1_n2, repr_value=repr_value)
+                                                               v_n2_n1, repr_value=repr_value)
     if len(heu_net.nodes) == 0:
         for act in heu_net.activities:
             heu_net.nodes[act] = Node(heu_net, act, heu_net.activities_occurrences[act],
-- 
2.43.0


From a2021082635cc0d9055eb4aa79ef7ca06303d7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:10 +0000
Subject: [PATCH 049/104] fix: redundant invisible transitions of heuristics
 nets are all removed

---
 .../objects/conversion/heuristics_net/variants/to_petri_net.py  | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pm4py/objects/conversion/heuristics_net/variants/to_petri_net.py b/pm4py/objects/conversion/heuristics_net/variants/to_petri_net.py
index 432ae48..8018031 100644
--- a/pm4py/objects/conversion/heuristics_net/variants/to_petri_net.py
+++ b/pm4py/objects/conversion/heuristics_net/variants/to_petri_net.py
@@ -49,6 +49,8 @@ def remove_rendundant_invisible_transitions(net):
                                 postset_j.intersection(postset_i)) == len(postset_j):
                             remove_transition(net, trans[j])
                             del trans[j]
+                            if j < i:
+                                i = i - 1
                             continue
                 j = j + 1
             i = i + 1
-- 
2.43.0


From d5e6f485ce5c66e481faefa40c2f95c25346c9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:10 +0000
Subject: [PATCH 050/104] fix: concurrent activities of dataframes count both
 orders and logs without concurrency

---
 pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py | 4 ++--
 pm4py/statistics/concurrent_activities/pandas/get.py      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py b/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
index 795370c..470e085 100644
--- a/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
+++ b/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
@@ -315,8 +315,8 @@ def get_concurrent_events_dataframe(df, start_timestamp_key=None, timestamp_key=
     df = df[df[constants.DEFAULT_INDEX_KEY] < df[constants.DEFAULT_INDEX_KEY + "_2"]]
     df[max_start_column] = df[[start_timestamp_key, start_timestamp_key + '_2']].max(axis=1)
     df[min_complete_column] = df[[timestamp_key, timestamp_key + '_2']].min(axis=1)
-    df[max_start_column] = df[max_start_column].apply(lambda x: x.timestamp())
-    df[min_complete_column] = df[min_complete_column].apply(lambda x: x.timestamp())
+    df[max_start_column] = [x.timestamp() for x in df[max_start_column]]
+    df[min_complete_column] = [x.timestamp() for x in df[min_complete_column]]
     df[diff_maxs_minc] = df[min_complete_column] - df[max_start_column]
     if strict:
         df = df[df[diff_maxs_minc] > 0]
diff --git a/pm4py/statistics/concurrent_activities/pandas/get.py b/pm4py/statistics/concurrent_activities/pandas/get.py
index f464d3f..1c795db 100644
--- a/pm4py/statistics/concurrent_activities/pandas/get.py
+++ b/pm4py/statistics/concurrent_activities/pandas/get.py
@@ -74,7 +74,7 @@ def apply(dataframe: pd.DataFrame, parameters: Optional[Dict[Union[str, Paramete
     for el in ret_dict0:
         # avoid getting two entries for the same set of concurrent activities
         el2 = tuple(sorted(el))
-        ret_dict[el2] = int(ret_dict0[el])
+        ret_dict[el2] = ret_dict.get(el2, 0) + int(ret_dict0[el])
 
     return ret_dict
 
-- 
2.43.0


From e7135c300efb6945dbf4cc2d8389d34207caf780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:10 +0000
Subject: [PATCH 051/104] fix: heuristic causal relation of a self-loop uses
 the length-one loop measure

---
 pm4py/algo/discovery/causal/variants/heuristic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/discovery/causal/variants/heuristic.py b/pm4py/algo/discovery/causal/variants/heuristic.py
index 1a4c4e7..8dc9982 100644
--- a/pm4py/algo/discovery/causal/variants/heuristic.py
+++ b/pm4py/algo/discovery/causal/variants/heuristic.py
@@ -33,7 +33,8 @@ def apply(dfg: Dict[Tuple[str, str], int]) -> Dict[Tuple[str, str], float]:
     causal_heur = {}
     for (f, t) in dfg:
         if (f, t) not in causal_heur:
-            rev = dfg[(t, f)] if (t, f) in dfg else 0
+            rev = dfg[(t, f)] if (t, f) in dfg and f != t else 0
             causal_heur[(f, t)] = float((dfg[(f, t)] - rev) / (dfg[(f, t)] + rev + 1))
-            causal_heur[(t, f)] = -1 * causal_heur[(f, t)]
+            if f != t:
+                causal_heur[(t, f)] = -1 * causal_heur[(f, t)]
     return causal_heur
-- 
2.43.0


From b2907eea2c98cb30868cea2e7bc50816ee47c503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:19 +0000
Subject: [PATCH 052/104] fix: POWL miner supports loops with several redo
 groups

---
 pm4py/algo/discovery/powl/inductive/cuts/loop.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pm4py/algo/discovery/powl/inductive/cuts/loop.py b/pm4py/algo/discovery/powl/inductive/cuts/loop.py
index e9c5f6c..5ca7267 100644
--- a/pm4py/algo/discovery/powl/inductive/cuts/loop.py
+++ b/pm4py/algo/discovery/powl/inductive/cuts/loop.py
@@ -36,6 +36,8 @@ class POWLLoopCut(LoopCut, ABC, Generic[T]):
         if g is None:
             return g
         else:
+            # a POWL loop has exactly one redo part, which contains the choice between the redo groups
+            g = [g[0], set().union(*g[1:])]
             children = cls.project(obj, g, parameters)
             return OperatorPOWL(Operator.LOOP, children), children
 
-- 
2.43.0


From b1ed4b7bb5b7c4196bf04613c88fbbc473ac78c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:28 +0000
Subject: [PATCH 053/104] fix: variants of dataframes whose cases are
 interleaved

---
 pm4py/objects/log/util/pandas_numpy_variants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/log/util/pandas_numpy_variants.py b/pm4py/objects/log/util/pandas_numpy_variants.py
index b0dc973..0cc0980 100644
--- a/pm4py/objects/log/util/pandas_numpy_variants.py
+++ b/pm4py/objects/log/util/pandas_numpy_variants.py
@@ -74,7 +74,7 @@ def apply(dataframe: pd.DataFrame, parameters=None) -> Tuple[Dict[Collection[str
     if not (hasattr(dataframe, "attrs") and dataframe.attrs):
         # dataframe has not been initialized through format_dataframe
         dataframe = pandas_utils.insert_index(dataframe, index_key)
-        dataframe.sort_values([case_id_key, timestamp_key, index_key])
+        dataframe = dataframe.sort_values([case_id_key, timestamp_key, index_key])
 
     case_variant = dict()
 
-- 
2.43.0


From 7a35fb1a0baac79c867cb59f1b30093387695784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:28 +0000
Subject: [PATCH 054/104] fix: prefix tree marks variants that are prefixes of
 other variants as final

---
 pm4py/algo/transformation/log_to_trie/algorithm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pm4py/algo/transformation/log_to_trie/algorithm.py b/pm4py/algo/transformation/log_to_trie/algorithm.py
index 8fd3ce6..bb3c868 100644
--- a/pm4py/algo/transformation/log_to_trie/algorithm.py
+++ b/pm4py/algo/transformation/log_to_trie/algorithm.py
@@ -56,6 +56,5 @@ def apply(log: Union[EventLog, pd.DataFrame], parameters: Optional[Dict[Union[st
             node = Trie(label=activity, parent=trie, depth=trie.depth + 1)
             trie.children.append(node)
             trie = node
-            if i == len(variant) - 1:
-                trie.final = True
+        trie.final = True
     return root
-- 
2.43.0


From 0bfe410865a51599f5fca5b218d0da10ec768967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:28 +0000
Subject: [PATCH 055/104] fix: transition system creates one state for a step
 between equal views

---
 pm4py/algo/discovery/transition_system/variants/view_based.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/transition_system/variants/view_based.py b/pm4py/algo/discovery/transition_system/variants/view_based.py
index 406529b..e72205f 100644
--- a/pm4py/algo/discovery/transition_system/variants/view_based.py
+++ b/pm4py/algo/discovery/transition_system/variants/view_based.py
@@ -78,6 +78,7 @@ def __construct_state_path(view_sequence, transition_system, include_data=False)
     for i in range(0, len(view_sequence) - 1):
         sf = {'state': s for s in transition_system.states if s.name == view_sequence[i][0]}
         sf = sf['state'] if len(sf) > 0 else ts.TransitionSystem.State(view_sequence[i][0])
+        transition_system.states.add(sf)
         st = {'state': s for s in transition_system.states if s.name == view_sequence[i + 1][0]}
         st = st['state'] if len(st) > 0 else ts.TransitionSystem.State(view_sequence[i + 1][0])
         t = {'t': t for t in sf.outgoing if t.name == view_sequence[i][1] and t.from_state == sf and t.to_state == st}
@@ -93,7 +94,6 @@ def __construct_state_path(view_sequence, transition_system, include_data=False)
             sf.data[ts_constants.OUTGOING_EVENTS].append(view_sequence[i][2])
             st.data[ts_constants.INGOING_EVENTS].append(view_sequence[i][2])
             t.data[ts_constants.EVENTS].append(view_sequence[i][2])
-        transition_system.states.add(sf)
         transition_system.states.add(st)
         transition_system.transitions.add(t)
 
-- 
2.43.0


From c2b2b874a7fc1f5247bfaa253381e6eefe36fba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:12 +0000
Subject: [PATCH 056/104] fix: timestamps with an offset are converted to UTC
 instead of dropping the offset

---
 pm4py/util/dt_parsing/variants/strpfromiso.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pm4py/util/dt_parsing/variants/strpfromiso.py b/pm4py/util/dt_parsing/variants/strpfromiso.py
index c3c4e2d..f004ba6 100644
--- a/pm4py/util/dt_parsing/variants/strpfromiso.py
+++ b/pm4py/util/dt_parsing/variants/strpfromiso.py
@@ -34,7 +34,12 @@ def fix_dataframe_column(serie):
 
 def fix_naivety(dt):
     if constants.ENABLE_DATETIME_COLUMNS_AWARE:
-        dt = dt.replace(tzinfo=timezone.utc)
+        if dt.tzinfo is None:
+            # Convert to UTC if the datetime is naive
+            dt = dt.replace(tzinfo=timezone.utc)
+        else:
+            # Convert to UTC if it's not already in UTC
+            dt = dt.astimezone(timezone.utc)
     else:
         dt = dt.replace(tzinfo=None)
 
-- 
2.43.0


From ff0d382ed0a01f44ecbf1f25a27d0251c590da3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:12 +0000
Subject: [PATCH 057/104] fix: XES iterparse importers read nested attributes
 crossing the parser buffer and lists inside lists

---
 .../log/importer/xes/variants/iterparse.py    | 48 ++++++++----
 .../log/importer/xes/variants/iterparse_20.py | 58 ++++++++++-----
 .../xes/variants/iterparse_mem_compressed.py  | 74 ++++++++++++-------
 3 files changed, 119 insertions(+), 61 deletions(-)

diff --git a/pm4py/objects/log/importer/xes/variants/iterparse.py b/pm4py/objects/log/importer/xes/variants/iterparse.py
index 28702eb..206cba5 100644
--- a/pm4py/objects/log/importer/xes/variants/iterparse.py
+++ b/pm4py/objects/log/importer/xes/variants/iterparse.py
@@ -111,7 +111,7 @@ def import_from_context(context, num_traces, parameters=None):
 
     for tree_event, elem in context:
         if tree_event == _EVENT_START:  # starting to read
-            parent = tree[elem.getparent()] if elem.getparent() in tree else None
+            parent = __get_store(elem, tree)
 
             if elem.tag.endswith(xes_constants.TAG_STRING):
                 if parent is not None:
@@ -119,6 +119,11 @@ def import_from_context(context, num_traces, parameters=None):
                                              elem.get(xes_constants.KEY_VALUE), tree)
                 continue
 
+            elif elem.tag.endswith(xes_constants.TAG_VALUES):
+                if parent is not None:
+                    tree[elem] = parent
+                continue
+
             elif elem.tag.endswith(xes_constants.TAG_DATE):
                 try:
                     dt = date_parser.apply(elem.get(xes_constants.KEY_VALUE))
@@ -412,20 +417,33 @@ def import_from_string(log_string, parameters=None):
     return import_from_context(context, num_traces, parameters=parameters)
 
 
-def __parse_attribute(elem, store, key, value, tree):
-    if len(elem.getchildren()) == 0:
-        if type(store) is list:
-            # changes to the store of lists: not dictionaries anymore
-            # but pairs of key-values.
-            store.append((key, value))
+def __get_store(elem, tree):
+    """
+    Gets the structure in which the element needs to be stored.
+    If the parent is an attribute that has been read without children so far
+    (the children are not necessarily available when the parent is started), transforms it to a nested attribute.
+    """
+    parent = elem.getparent()
+    store = tree[parent] if parent in tree else None
+    if type(store) is tuple:
+        parent_store, key, value = store
+        store = list() if elem.tag.endswith(xes_constants.TAG_VALUES) else dict()
+        nested = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: store}
+        if type(parent_store) is list:
+            parent_store[-1] = (key, nested)
         else:
-            store[key] = value
+            parent_store[key] = nested
+        tree[parent] = store
+    return store
+
+
+def __parse_attribute(elem, store, key, value, tree):
+    if type(store) is list:
+        # changes to the store of lists: not dictionaries anymore
+        # but pairs of key-values.
+        store.append((key, value))
     else:
-        if elem.getchildren()[0].tag.endswith(xes_constants.TAG_VALUES):
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: list()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
-            tree[elem.getchildren()[0]] = tree[elem]
-        else:
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: dict()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
+        store[key] = value
+    # if the attribute turns out to have some children, it is going to be transformed to a nested attribute
+    tree[elem] = (store, key, value)
     return tree
diff --git a/pm4py/objects/log/importer/xes/variants/iterparse_20.py b/pm4py/objects/log/importer/xes/variants/iterparse_20.py
index 585d730..2833519 100644
--- a/pm4py/objects/log/importer/xes/variants/iterparse_20.py
+++ b/pm4py/objects/log/importer/xes/variants/iterparse_20.py
@@ -111,7 +111,7 @@ def import_from_context(context, num_traces, parameters=None):
 
     for tree_event, elem in context:
         if tree_event == _EVENT_START:  # starting to read
-            parent = tree[elem.getparent()] if elem.getparent() in tree else None
+            parent = __get_store(elem, tree)
 
             if elem.tag.endswith(xes_constants.TAG_STRING):
                 if parent is not None:
@@ -119,6 +119,11 @@ def import_from_context(context, num_traces, parameters=None):
                                              elem.get(xes_constants.KEY_VALUE), tree)
                 continue
 
+            elif elem.tag.endswith(xes_constants.TAG_VALUES):
+                if parent is not None:
+                    tree[elem] = parent
+                continue
+
             elif elem.tag.endswith(xes_constants.TAG_DATE):
                 try:
                     dt = date_parser.apply(elem.get(xes_constants.KEY_VALUE))
@@ -412,24 +417,39 @@ def import_from_string(log_string, parameters=None):
     return import_from_context(context, num_traces, parameters=parameters)
 
 
-def __parse_attribute(elem, store, key, value, tree):
-    if len(elem.getchildren()) == 0:
-        if type(store) is list:
-            # changes to the store of lists: not dictionaries anymore
-            # but pairs of key-values.
-            store.append((key, value))
-        elif type(store) is set:
-            store.add((key, value))
+def __get_store(elem, tree):
+    """
+    Gets the structure in which the element needs to be stored.
+    If the parent is an attribute that has been read without children so far
+    (the children are not necessarily available when the parent is started), transforms it to a nested attribute.
+    """
+    parent = elem.getparent()
+    store = tree[parent] if parent in tree else None
+    if type(store) is tuple:
+        parent_store, key, value = store
+        store = dict()
+        if parent.tag.endswith(xes_constants.TAG_LIST):
+            store = list()
+        elif parent.tag.endswith(xes_constants.TAG_CONTAINER):
+            store = set()
+        nested = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: store}
+        if type(parent_store) is list:
+            parent_store[-1] = (key, nested)
         else:
-            store[key] = value
+            parent_store[key] = nested
+        tree[parent] = store
+    return store
+
+
+def __parse_attribute(elem, store, key, value, tree):
+    if type(store) is list:
+        # changes to the store of lists: not dictionaries anymore
+        # but pairs of key-values.
+        store.append((key, value))
+    elif type(store) is set:
+        store.add((key, value))
     else:
-        if elem.tag.endswith(xes_constants.TAG_LIST):
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: list()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
-        elif elem.tag.endswith(xes_constants.TAG_CONTAINER):
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: set()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
-        else:
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: dict()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
+        store[key] = value
+    # if the attribute turns out to have some children, it is going to be transformed to a nested attribute
+    tree[elem] = (store, key, value)
     return tree
diff --git a/pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py b/pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py
index dfb8627..97cd926 100644
--- a/pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py
+++ b/pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py
@@ -113,7 +113,7 @@ def import_from_context(context, num_traces, log, parameters=None):
 
     for tree_event, elem in context:
         if tree_event == _EVENT_START:  # starting to read
-            parent = tree[elem.getparent()] if elem.getparent() in tree else None
+            parent = __get_store(elem, tree)
 
             if elem.tag.endswith(xes_constants.TAG_STRING):
                 if parent is not None:
@@ -121,6 +121,11 @@ def import_from_context(context, num_traces, log, parameters=None):
                                              elem.get(xes_constants.KEY_VALUE), tree, compression_dictio)
                 continue
 
+            elif elem.tag.endswith(xes_constants.TAG_VALUES):
+                if parent is not None:
+                    tree[elem] = parent
+                continue
+
             elif elem.tag.endswith(xes_constants.TAG_DATE):
                 try:
                     dt = date_parser.apply(elem.get(xes_constants.KEY_VALUE))
@@ -412,34 +417,49 @@ def import_from_string(log_string, parameters=None):
     return import_from_context(context, num_traces, log, parameters=parameters)
 
 
-def __parse_attribute(elem, store, key, value, tree, compression_dict):
-    if len(elem.getchildren()) == 0:
-        if key in compression_dict:
-            # using existing istantiations of existing objects
-            key = compression_dict[key]
+def __get_store(elem, tree):
+    """
+    Gets the structure in which the element needs to be stored.
+    If the parent is an attribute that has been read without children so far
+    (the children are not necessarily available when the parent is started), transforms it to a nested attribute.
+    """
+    parent = elem.getparent()
+    store = tree[parent] if parent in tree else None
+    if type(store) is tuple:
+        parent_store, key, value = store
+        store = list() if elem.tag.endswith(xes_constants.TAG_VALUES) else dict()
+        nested = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: store}
+        if type(parent_store) is list:
+            parent_store[-1] = (key, nested)
         else:
-            # set up a new instantiation
-            compression_dict[key] = key
+            parent_store[key] = nested
+        tree[parent] = store
+    return store
 
-        if value in compression_dict:
-            # using existing istantiations of existing objects
-            value = compression_dict[value]
-        else:
-            # set up a new instantiation
-            compression_dict[value] = value
 
-        if type(store) is list:
-            # changes to the store of lists: not dictionaries anymore
-            # but pairs of key-values.
-            store.append((key, value))
-        else:
-            store[key] = value
+def __parse_attribute(elem, store, key, value, tree, compression_dict):
+    if key in compression_dict:
+        # using existing istantiations of existing objects
+        key = compression_dict[key]
     else:
-        if elem.getchildren()[0].tag.endswith(xes_constants.TAG_VALUES):
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: list()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
-            tree[elem.getchildren()[0]] = tree[elem]
-        else:
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: dict()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
+        # set up a new instantiation
+        compression_dict[key] = key
+
+    # values of different types can be equal (1, 1.0, True)
+    value_key = (type(value), value)
+    if value_key in compression_dict:
+        # using existing istantiations of existing objects
+        value = compression_dict[value_key]
+    else:
+        # set up a new instantiation
+        compression_dict[value_key] = value
+
+    if type(store) is list:
+        # changes to the store of lists: not dictionaries anymore
+        # but pairs of key-values.
+        store.append((key, value))
+    else:
+        store[key] = value
+    # if the attribute turns out to have some children, it is going to be transformed to a nested attribute
+    tree[elem] = (store, key, value)
     return tree
-- 
2.43.0


From 97065c43619d4775f70259573e7472a527385157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:12 +0000
Subject: [PATCH 058/104] fix: XES chunk_regex and line_by_line importers
 unescape entities and read quotes, empty elements and characters at chunk
 boundaries

---
 .../log/importer/xes/variants/chunk_regex.py  | 54 +++++++++++++++++--
 .../log/importer/xes/variants/line_by_line.py | 24 ++++++---
 2 files changed, 67 insertions(+), 11 deletions(-)

diff --git a/pm4py/objects/log/importer/xes/variants/chunk_regex.py b/pm4py/objects/log/importer/xes/variants/chunk_regex.py
index 8bf8853..ab7746c 100644
--- a/pm4py/objects/log/importer/xes/variants/chunk_regex.py
+++ b/pm4py/objects/log/importer/xes/variants/chunk_regex.py
@@ -14,7 +14,9 @@
     You should have received a copy of the GNU General Public License
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
+import codecs
 import gzip
+import html
 import os
 import sys
 from enum import Enum
@@ -32,6 +34,38 @@ class Parameters(Enum):
     ENCODING = "encoding"
 
 
+QUOTED_VALUE = re.compile(r"""=\s*("[^"]*"|'[^']*')""")
+
+
+def split_tag(tag):
+    """
+    Splits the content of a tag over the quotes of its attributes, replacing the XML entities
+
+    Parameters
+    -----------
+    tag
+        Content of a tag
+
+    Returns
+    -----------
+    parts
+        List in which the parts at the odd positions are the values of the attributes
+    """
+    parts = tag.split('"')
+    if "'" in tag and any("'" in x for x in parts[::2]):
+        # some attributes are delimited by single quotes
+        parts = []
+        idx = 0
+        for m in QUOTED_VALUE.finditer(tag):
+            parts.append(tag[idx:m.start(1)])
+            parts.append(m.group(1)[1:-1])
+            idx = m.end(1)
+        parts.append(tag[idx:])
+    if "&" in tag:
+        parts = [html.unescape(x) for x in parts]
+    return parts
+
+
 def apply(filename, parameters=None):
     return import_log(filename, parameters)
 
@@ -57,6 +91,8 @@ def import_log_from_file_object(F, encoding, file_size=sys.maxsize, parameters=N
         Log file
     """
     nb = 2 ** 12 # bytes per chunk
+    # the chunks may end in the middle of a multi-byte character
+    decoder = codecs.getincrementaldecoder(encoding)()
     rex = re.compile(r"(<|>)")
     parser = dt_parser.get()
     cont = F.read(nb)
@@ -65,7 +101,7 @@ def import_log_from_file_object(F, encoding, file_size=sys.maxsize, parameters=N
     log = EventLog()
     trace = None
     while cont:
-        lst = deque(rex.split(cont.decode(encoding)))
+        lst = deque(rex.split(decoder.decode(cont)))
         while lst:
             el = lst.popleft()
             if len(el.rstrip()) > 0:
@@ -77,7 +113,7 @@ def import_log_from_file_object(F, encoding, file_size=sys.maxsize, parameters=N
                     # need to read more
                     cont = F.read(nb)
                     if cont:
-                        lst2 = rex.split(cont.decode(encoding))
+                        lst2 = rex.split(decoder.decode(cont))
                         el = el + lst2[0]
                         lst = deque(lst2[1:])
                     else:
@@ -88,12 +124,19 @@ def import_log_from_file_object(F, encoding, file_size=sys.maxsize, parameters=N
                     else:
                         return log
                     continue
+                if el[-1] == '/' and el[:-1].rstrip() in ("event", "trace"):
+                    # event/trace without any content
+                    if el[0] == 'e':
+                        trace.append(Event())
+                    else:
+                        log.append(Trace())
+                    continue
                 idx = el.find(' ')
                 if idx > -1:
                     tag = el[:idx]
-                    el = el.split('\"')
+                    el = split_tag(el)
                     el[-1] = el[-1].strip()
-                    if tag == "string":
+                    if tag == "string" or tag == "id":
                         curr_els_attrs[-1][el[1]] = el[3]
                         if el[-1] != '/':
                             curr_els_attrs.append(fk_dict)
@@ -153,7 +196,8 @@ def import_log_from_file_object(F, encoding, file_size=sys.maxsize, parameters=N
                         dct_children = {}
                         dct = {"value": None, "children": dct_children}
                         curr_els_attrs[-1][el[1]] = dct
-                        curr_els_attrs.append(dct_children)
+                        if el[-1] != '/':
+                            curr_els_attrs.append(dct_children)
                         continue
                 else:
                     if el == "event":
diff --git a/pm4py/objects/log/importer/xes/variants/line_by_line.py b/pm4py/objects/log/importer/xes/variants/line_by_line.py
index a8ec29f..22ca743 100644
--- a/pm4py/objects/log/importer/xes/variants/line_by_line.py
+++ b/pm4py/objects/log/importer/xes/variants/line_by_line.py
@@ -20,6 +20,7 @@ import sys
 from enum import Enum
 from io import BytesIO
 
+from pm4py.objects.log.importer.xes.variants.chunk_regex import split_tag
 from pm4py.objects.log.obj import EventLog, Trace, Event
 from pm4py.objects.log.util import sorting
 from pm4py.util import constants, xes_constants, exec_utils
@@ -94,10 +95,12 @@ def read_attribute_key_value(tag, content, date_parser, values_dict, set_attribu
             values_dict[key] = key
 
         # limits the number of different instantations of the same value
-        if value in values_dict:
-            value = values_dict[value]
+        # (values of different types can be equal: 1, 1.0, True)
+        value_key = (type(value), value)
+        if value_key in values_dict:
+            value = values_dict[value_key]
         else:
-            values_dict[value] = value
+            values_dict[value_key] = value
 
     return key, value
 
@@ -154,7 +157,7 @@ def import_log_from_file_object(f, encoding, file_size=sys.maxsize, parameters=N
     f.seek(skip_bytes)
 
     for line in f:
-        content = line.decode(encoding).split("\"")
+        content = split_tag(line.decode(encoding))
         if len(content) > 0:
             tag = content[0].split("<")[-1]
             if trace is not None:
@@ -169,6 +172,10 @@ def import_log_from_file_object(f, encoding, file_size=sys.maxsize, parameters=N
                         event = None
                 elif tag.startswith("event"):
                     event = Event()
+                    if "/>" in tag:
+                        # event without any attribute
+                        trace.append(event)
+                        event = None
                 elif len(content) == 5:
                     key, value = read_attribute_key_value(tag, content, date_parser, values_dict,
                                                           set_attributes_to_read)
@@ -177,11 +184,16 @@ def import_log_from_file_object(f, encoding, file_size=sys.maxsize, parameters=N
                 elif tag.startswith("/trace"):
                     log.append(trace)
                     tracecount += 1
-                    if tracecount > max_no_traces_to_import:
-                        break
                     trace = None
             elif tag.startswith("trace"):
+                if tracecount >= max_no_traces_to_import:
+                    break
                 trace = Trace()
+                if "/>" in tag:
+                    # trace without any content
+                    log.append(trace)
+                    tracecount += 1
+                    trace = None
 
     if timestamp_sort:
         log = sorting.sort_timestamp(log, timestamp_key=timestamp_key, reverse_sort=reverse_sort)
-- 
2.43.0


From f88262579e0aa1f237818ae3a44bc2dc3a3b7b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:12 +0000
Subject: [PATCH 059/104] fix: line_by_line XES exporter escapes extensions,
 classifiers and globals; numpy values keep their type

---
 .../exporter/xes/variants/etree_xes_exp.py    |  7 +++++--
 .../log/exporter/xes/variants/line_by_line.py | 20 ++++++++++++-------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/pm4py/objects/log/exporter/xes/variants/etree_xes_exp.py b/pm4py/objects/log/exporter/xes/variants/etree_xes_exp.py
index 7275fa7..bdd41d0 100644
--- a/pm4py/objects/log/exporter/xes/variants/etree_xes_exp.py
+++ b/pm4py/objects/log/exporter/xes/variants/etree_xes_exp.py
@@ -49,8 +49,11 @@ __TYPE_CORRESPONDENCE = {
     "Timestamp": xes_util.TAG_DATE,
     "bool": xes_util.TAG_BOOLEAN,
     "dict": xes_util.TAG_LIST,
-    "numpy.int64": xes_util.TAG_INT,
-    "numpy.float64": xes_util.TAG_FLOAT,
+    "int32": xes_util.TAG_INT,
+    "int64": xes_util.TAG_INT,
+    "float32": xes_util.TAG_FLOAT,
+    "float64": xes_util.TAG_FLOAT,
+    "bool_": xes_util.TAG_BOOLEAN,
     "numpy.datetime64": xes_util.TAG_DATE
 }
 # if a type is not found in the previous list, then default to string
diff --git a/pm4py/objects/log/exporter/xes/variants/line_by_line.py b/pm4py/objects/log/exporter/xes/variants/line_by_line.py
index 2c8e2bd..ffc35b7 100644
--- a/pm4py/objects/log/exporter/xes/variants/line_by_line.py
+++ b/pm4py/objects/log/exporter/xes/variants/line_by_line.py
@@ -39,8 +39,11 @@ __TYPE_CORRESPONDENCE = {
     "Timestamp": xes_util.TAG_DATE,
     "bool": xes_util.TAG_BOOLEAN,
     "dict": xes_util.TAG_LIST,
-    "numpy.int64": xes_util.TAG_INT,
-    "numpy.float64": xes_util.TAG_FLOAT,
+    "int32": xes_util.TAG_INT,
+    "int64": xes_util.TAG_INT,
+    "float32": xes_util.TAG_FLOAT,
+    "float64": xes_util.TAG_FLOAT,
+    "bool_": xes_util.TAG_BOOLEAN,
     "numpy.datetime64": xes_util.TAG_DATE
 }
 # if a type is not found in the previous list, then default to string
@@ -222,15 +225,18 @@ def export_log_line_by_line(log, fp_obj, encoding, parameters=None):
         encoding))
     fp_obj.write(("<log "+xes_util.TAG_VERSION+"=\""+xes_util.VALUE_XES_VERSION+"\" "+xes_util.TAG_FEATURES+"=\""+xes_util.VALUE_XES_FEATURES+"\" "+xes_util.TAG_XMLNS+"=\""+xes_util.VALUE_XMLNS+"\">\n").encode(encoding))
     for ext_name, ext_value in log.extensions.items():
-        fp_obj.write((get_tab_indent(1) + "<extension name=\"%s\" prefix=\"%s\" uri=\"%s\" />\n" % (
-            ext_name, ext_value[xes_util.KEY_PREFIX], ext_value[xes_util.KEY_URI])).encode(encoding))
+        fp_obj.write((get_tab_indent(1) + "<extension name=%s prefix=%s uri=%s />\n" % (
+            escape(ext_name), escape(ext_value[xes_util.KEY_PREFIX]), escape(ext_value[xes_util.KEY_URI]))).encode(encoding))
     for clas_name, clas_attributes in log.classifiers.items():
-        fp_obj.write((get_tab_indent(1) + "<classifier name=\"%s\" keys=\"%s\" />\n" % (
-            clas_name, " ".join(clas_attributes))).encode(encoding))
+        if any(" " in x for x in clas_attributes):
+            # the names of attributes containing a space are enclosed in single quotes
+            clas_attributes = ["'" + x + "'" for x in clas_attributes]
+        fp_obj.write((get_tab_indent(1) + "<classifier name=%s keys=%s />\n" % (
+            escape(clas_name), escape(" ".join(clas_attributes)))).encode(encoding))
     for attr_name, attr_value in log.attributes.items():
         fp_obj.write(export_attribute(attr_name, attr_value, 1).encode(encoding))
     for scope in log.omni_present:
-        fp_obj.write((get_tab_indent(1) + "<global scope=\"%s\">\n" % (scope)).encode(encoding))
+        fp_obj.write((get_tab_indent(1) + "<global scope=%s>\n" % escape(scope)).encode(encoding))
         for attr_name, attr_value in log.omni_present[scope].items():
             fp_obj.write(export_attribute(attr_name, attr_value, 2).encode(encoding))
         fp_obj.write((get_tab_indent(1) + "</global>\n").encode(encoding))
-- 
2.43.0


From 5f466d9b30572148b2e02f7dd7eec65548431b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:12 +0000
Subject: [PATCH 060/104] fix: missing values of dataframes are not exported to
 XES

---
 pm4py/objects/log/exporter/xes/exporter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pm4py/objects/log/exporter/xes/exporter.py b/pm4py/objects/log/exporter/xes/exporter.py
index 26fbb8c..8dc9321 100644
--- a/pm4py/objects/log/exporter/xes/exporter.py
+++ b/pm4py/objects/log/exporter/xes/exporter.py
@@ -45,7 +45,9 @@ def apply(log, output_file_path, variant=DEFAULT_VARIANT, parameters=None):
         Parameters of the algorithm:
             Parameters.COMPRESS -> Indicates that the XES file must be compressed
     """
-    parameters = dict() if parameters is None else parameters
+    parameters = dict() if parameters is None else dict(parameters)
+    # the missing values of a dataframe are not attributes of the events
+    parameters.setdefault("stream_postprocessing", True)
     return exec_utils.get_variant(variant).apply(log_conversion.apply(log, variant=log_conversion.Variants.TO_EVENT_LOG, parameters=parameters), output_file_path,
                                                  parameters=parameters)
 
@@ -68,7 +70,9 @@ def serialize(log, variant=DEFAULT_VARIANT, parameters=None):
     string
         String describing the XES
     """
-    parameters = dict() if parameters is None else parameters
+    parameters = dict() if parameters is None else dict(parameters)
+    # the missing values of a dataframe are not attributes of the events
+    parameters.setdefault("stream_postprocessing", True)
 
     log_string = exec_utils.get_variant(variant).export_log_as_string(log_conversion.apply(log, variant=log_conversion.Variants.TO_EVENT_LOG, parameters=parameters),
                                                                       parameters=parameters)
-- 
2.43.0


From 197c7c47436d05dd6c2244958e62c842d8056a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:22 +0000
Subject: [PATCH 061/104] fix: log conversions neither change their source nor
 rename, conflate or drop attributes

---
 .../conversion/log/variants/to_event_log.py        |  2 +-
 .../conversion/log/variants/to_event_stream.py     | 14 ++++++++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/pm4py/objects/conversion/log/variants/to_event_log.py b/pm4py/objects/conversion/log/variants/to_event_log.py
index 8b20170..5e37625 100644
--- a/pm4py/objects/conversion/log/variants/to_event_log.py
+++ b/pm4py/objects/conversion/log/variants/to_event_log.py
@@ -92,7 +92,7 @@ def __transform_event_stream_to_event_log(log, case_glue=Parameters.CASE_ID_KEY.
             if include_case_attributes:
                 for k in event.keys():
                     if k.startswith(case_attribute_prefix):
-                        trace_attr[k.replace(case_attribute_prefix, '')] = event[k]
+                        trace_attr[k[len(case_attribute_prefix):]] = event[k]
                 if xes.DEFAULT_TRACEID_KEY not in trace_attr:
                     trace_attr[xes.DEFAULT_TRACEID_KEY] = glue
             traces[glue] = log_instance.Trace(attributes=trace_attr)
diff --git a/pm4py/objects/conversion/log/variants/to_event_stream.py b/pm4py/objects/conversion/log/variants/to_event_stream.py
index ca07578..a1f0b0f 100644
--- a/pm4py/objects/conversion/log/variants/to_event_stream.py
+++ b/pm4py/objects/conversion/log/variants/to_event_stream.py
@@ -62,7 +62,7 @@ def __postprocess_stream(list_events):
             elif (typ_k is float or typ_k is int) and math.isnan(event[k]):
                 del event[k]
                 continue
-            elif event[k] is None:
+            elif event[k] is None or event[k] is pandas.NA:
                 del event[k]
                 continue
     return list_events
@@ -97,10 +97,12 @@ def __compress(list_events):
                 k = compress_dict[k]
             # check if the value has already been instantiated.
             # in that case, use the current instantiation
-            if v not in compress_dict:
-                compress_dict[v] = v
-            else:
-                v = compress_dict[v]
+            # (values that are equal but of different types, e.g. 1, 1.0 and True, are kept distinct)
+            try:
+                v = compress_dict.setdefault((type(v), v), v)
+            except TypeError:
+                # values that are not hashable (e.g. lists) are not compressed
+                pass
             # saves the compressed keys and values in the dictionary
             comp_ev[k] = v
         list_events[i] = comp_ev
@@ -279,7 +281,7 @@ def __transform_event_log_to_event_stream(log, include_case_attributes=True,
                                     omni_present=log.omni_present, extensions=log.extensions, properties=log.properties)
     for index, trace in enumerate(log):
         for event in trace:
-            new_event = deepcopy(event) if enable_deepcopy else event
+            new_event = deepcopy(event) if enable_deepcopy else copy(event)
             if include_case_attributes:
                 for key, value in trace.attributes.items():
                     new_event[case_attribute_prefix + key] = value
-- 
2.43.0


From 02dc939f8a0856fbe5d7b9c5095b771b5728fb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:22 +0000
Subject: [PATCH 062/104] fix: iteration over dataframes with interleaved cases
 or another case identifier

---
 pm4py/streaming/conversion/from_pandas.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pm4py/streaming/conversion/from_pandas.py b/pm4py/streaming/conversion/from_pandas.py
index ecb911e..20be889 100644
--- a/pm4py/streaming/conversion/from_pandas.py
+++ b/pm4py/streaming/conversion/from_pandas.py
@@ -43,10 +43,10 @@ class PandasDataframeAsIterable(object):
                                                    xes_constants.DEFAULT_TIMESTAMP_KEY)
         index_key = exec_utils.get_param_value(Parameters.INDEX_KEY, parameters, constants.DEFAULT_INDEX_KEY)
 
-        if not (hasattr(dataframe, "attrs") and dataframe.attrs):
-            # dataframe has not been initialized through format_dataframe
+        if not (hasattr(dataframe, "attrs") and dataframe.attrs) or dataframe.attrs.get(constants.PARAMETER_CONSTANT_CASEID_KEY, case_id_key) != case_id_key:
+            # dataframe has not been initialized through format_dataframe (or with another case identifier)
             dataframe = pandas_utils.insert_index(dataframe, index_key)
-            dataframe.sort_values([case_id_key, timestamp_key, index_key])
+            dataframe = dataframe.sort_values([case_id_key, timestamp_key, index_key])
 
         cases = dataframe[case_id_key].to_numpy()
 
-- 
2.43.0


From 21308c007f7b7f37c99c4abf7b9873c5152b9176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:22 +0000
Subject: [PATCH 063/104] fix: format_dataframe supports columns that exchange
 their roles

---
 pm4py/utils.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pm4py/utils.py b/pm4py/utils.py
index f5ef1e0..7d03dcc 100644
--- a/pm4py/utils.py
+++ b/pm4py/utils.py
@@ -71,18 +71,23 @@ def format_dataframe(df: pd.DataFrame, case_id: str = constants.CASE_CONCEPT_NAM
         raise Exception(activity_key + " column (activity) is not in the dataframe!")
     if timestamp_key not in df.columns:
         raise Exception(timestamp_key + " column (timestamp) is not in the dataframe!")
+    # the columns are read before they are renamed, since they may exchange their roles
+    case_id_column, activity_column, timestamp_column = df[case_id], df[activity_key], df[timestamp_key]
+    start_timestamp_column = df[start_timestamp_key] if start_timestamp_key in df.columns else None
     if case_id != constants.CASE_CONCEPT_NAME:
         if constants.CASE_CONCEPT_NAME in df.columns:
             del df[constants.CASE_CONCEPT_NAME]
-        df[constants.CASE_CONCEPT_NAME] = df[case_id]
+        df[constants.CASE_CONCEPT_NAME] = case_id_column
     if activity_key != xes_constants.DEFAULT_NAME_KEY:
         if xes_constants.DEFAULT_NAME_KEY in df.columns:
             del df[xes_constants.DEFAULT_NAME_KEY]
-        df[xes_constants.DEFAULT_NAME_KEY] = df[activity_key]
+        df[xes_constants.DEFAULT_NAME_KEY] = activity_column
     if timestamp_key != xes_constants.DEFAULT_TIMESTAMP_KEY:
         if xes_constants.DEFAULT_TIMESTAMP_KEY in df.columns:
             del df[xes_constants.DEFAULT_TIMESTAMP_KEY]
-        df[xes_constants.DEFAULT_TIMESTAMP_KEY] = df[timestamp_key]
+        df[xes_constants.DEFAULT_TIMESTAMP_KEY] = timestamp_column
+    if start_timestamp_column is not None and start_timestamp_key != xes_constants.DEFAULT_START_TIMESTAMP_KEY:
+        df[xes_constants.DEFAULT_START_TIMESTAMP_KEY] = start_timestamp_column
     # makes sure that the timestamps column are of timestamp type
     df = dataframe_utils.convert_timestamp_columns_in_df(df, timest_format=timest_format)
     # drop NaN(s) in the main columns (case ID, activity, timestamp) to ensure functioning of the
@@ -111,8 +116,7 @@ def format_dataframe(df: pd.DataFrame, case_id: str = constants.CASE_CONCEPT_NAM
     if not hasattr(df, 'attrs'):
         # legacy (Python 3.6) support
         df.attrs = {}
-    if start_timestamp_key in df.columns:
-        df[xes_constants.DEFAULT_START_TIMESTAMP_KEY] = df[start_timestamp_key]
+    if start_timestamp_column is not None:
         df.attrs[constants.PARAMETER_CONSTANT_START_TIMESTAMP_KEY] = xes_constants.DEFAULT_START_TIMESTAMP_KEY
     df.attrs[constants.PARAMETER_CONSTANT_ACTIVITY_KEY] = xes_constants.DEFAULT_NAME_KEY
     df.attrs[constants.PARAMETER_CONSTANT_TIMESTAMP_KEY] = xes_constants.DEFAULT_TIMESTAMP_KEY
-- 
2.43.0


From 932bbf9cc6211464a9b938b07967ea7405d7d7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:22 +0000
Subject: [PATCH 064/104] fix: slices, indices and attribute names of the
 dataframe wrapper; index() of logs and traces

---
 pm4py/objects/log/obj.py                     |  5 ++--
 pm4py/objects/log/util/pandas_log_wrapper.py | 26 +++++++-------------
 2 files changed, 12 insertions(+), 19 deletions(-)

diff --git a/pm4py/objects/log/obj.py b/pm4py/objects/log/obj.py
index b4914d4..e11aaa7 100644
--- a/pm4py/objects/log/obj.py
+++ b/pm4py/objects/log/obj.py
@@ -15,6 +15,7 @@
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
 import copy
+import sys
 from collections.abc import Mapping, Sequence
 from enum import Enum
 
@@ -149,7 +150,7 @@ class EventStream(Sequence):
     def __setitem__(self, key, value):
         self._list[key] = value
 
-    def index(self, x, start: int = ..., end: int = ...):
+    def index(self, x, start: int = 0, end: int = sys.maxsize):
         return self._list.index(x, start, end)
 
     def count(self, x):
@@ -251,7 +252,7 @@ class Trace(Sequence):
     def __setitem__(self, key, value):
         self._list[key] = value
 
-    def index(self, x, start: int = ..., end: int = ...):
+    def index(self, x, start: int = 0, end: int = sys.maxsize):
         return self._list.index(x, start, end)
 
     def count(self, x):
diff --git a/pm4py/objects/log/util/pandas_log_wrapper.py b/pm4py/objects/log/util/pandas_log_wrapper.py
index 0e6355f..1594141 100644
--- a/pm4py/objects/log/util/pandas_log_wrapper.py
+++ b/pm4py/objects/log/util/pandas_log_wrapper.py
@@ -37,17 +37,13 @@ class PandasTraceWrapper(Sequence):
                                                                 constants.CASE_ATTRIBUTE_PREFIX)
 
         self.attributes = self.dataframe.loc[0].to_dict()
-        self.attributes = {x.split(self.case_attribute_prefix)[-1]: y for x, y in self.attributes.items() if
+        self.attributes = {x[len(self.case_attribute_prefix):]: y for x, y in self.attributes.items() if
                            x.startswith(self.case_attribute_prefix)}
 
     def __getitem__(self, key):
         if type(key) is slice:
-            start = key.start % len(self.dataframe)
-            stop = key.stop % len(self.dataframe)
-            sli = slice(start, stop - 1, key.step)
-            return self.dataframe.loc[sli].to_dict("records")
-        key = key % len(self.dataframe)
-        return self.dataframe.loc[key].to_dict()
+            return self.dataframe.iloc[key].to_dict("records")
+        return self.dataframe.iloc[key].to_dict()
 
     def __iter__(self):
         return iter(self.dataframe.to_dict('records'))
@@ -71,7 +67,7 @@ class PandasLogWrapper(Sequence):
         self.case_id_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, constants.CASE_CONCEPT_NAME)
         self.dataframe = dataframe
 
-        self.grouped_dataframe = self.dataframe.groupby(self.case_id_key).groups
+        self.grouped_dataframe = self.dataframe.groupby(self.case_id_key).indices
         self.keys = list(self.grouped_dataframe)
 
         self.attributes = {}
@@ -82,21 +78,17 @@ class PandasLogWrapper(Sequence):
 
     def __getitem__(self, key):
         if type(key) is slice:
-            start = key.start % len(self.dataframe)
-            stop = key.stop % len(self.dataframe)
-            sli = slice(start, stop, key.step)
             ret = []
-            for x in self.keys[sli]:
-                ret.append(PandasTraceWrapper(self.dataframe.loc[self.grouped_dataframe[x]].copy().reset_index(),
+            for x in self.keys[key]:
+                ret.append(PandasTraceWrapper(self.dataframe.iloc[self.grouped_dataframe[x]].copy().reset_index(),
                                   parameters=self.parameters))
             return ret
-        key = key % len(self.grouped_dataframe)
-        return PandasTraceWrapper(self.dataframe.loc[self.grouped_dataframe[self.keys[key]]].copy().reset_index(),
+        return PandasTraceWrapper(self.dataframe.iloc[self.grouped_dataframe[self.keys[key]]].copy().reset_index(),
                                   parameters=self.parameters)
 
     def __iter__(self):
         for key in self.keys:
-            yield PandasTraceWrapper(self.dataframe.loc[self.grouped_dataframe[key]].copy().reset_index(),
+            yield PandasTraceWrapper(self.dataframe.iloc[self.grouped_dataframe[key]].copy().reset_index(),
                                      parameters=self.parameters)
 
     def __len__(self):
@@ -105,7 +97,7 @@ class PandasLogWrapper(Sequence):
     def _get_list(self):
         ret = []
         for key in self.keys:
-            ret.append(PandasTraceWrapper(self.dataframe.loc[self.grouped_dataframe[key]].copy().reset_index(),
+            ret.append(PandasTraceWrapper(self.dataframe.iloc[self.grouped_dataframe[key]].copy().reset_index(),
                                      parameters=self.parameters))
         return ret
 
-- 
2.43.0


From 47de27753c6adc821958c7a27add8f847ad3f17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:22 +0000
Subject: [PATCH 065/104] fix: move_attrs_to_trace on an empty log

---
 pm4py/objects/log/util/move_attrs_to_trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/log/util/move_attrs_to_trace.py b/pm4py/objects/log/util/move_attrs_to_trace.py
index 33655b9..c746494 100644
--- a/pm4py/objects/log/util/move_attrs_to_trace.py
+++ b/pm4py/objects/log/util/move_attrs_to_trace.py
@@ -54,7 +54,7 @@ def apply(log: EventLog, parameters: Optional[Dict[Union[str, Parameters], Any]]
     for e in XESExtension:
         main_extensions.add(e.value[1])
 
-    candidates = None
+    candidates = None if len(log) > 0 else set()
     for trace in log:
         values_count = {}
         for eve in trace:
-- 
2.43.0


From a9625d7ff880909e0a78e30ddaca16d22f9dbd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:37 +0000
Subject: [PATCH 066/104] fix: dataframe path filters must follow the cases and
 distinguish activities with commas

---
 pm4py/algo/filtering/pandas/paths/paths_filter.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pm4py/algo/filtering/pandas/paths/paths_filter.py b/pm4py/algo/filtering/pandas/paths/paths_filter.py
index b61e0bc..4e2ec91 100644
--- a/pm4py/algo/filtering/pandas/paths/paths_filter.py
+++ b/pm4py/algo/filtering/pandas/paths/paths_filter.py
@@ -69,14 +69,14 @@ def apply(df: pd.DataFrame, paths: List[Tuple[str, str]], parameters: Optional[D
     target_attribute_key = exec_utils.get_param_value(Parameters.TARGET_ATTRIBUTE_KEY, parameters, attribute_key)
 
     positive = exec_utils.get_param_value(Parameters.POSITIVE, parameters, True)
-    paths = [path[0] + DEFAULT_VARIANT_SEP + path[1] for path in paths]
+    paths = [tuple(path) for path in paths]
     df = df.sort_values([case_id_glue, timestamp_key])
     filt_df = df[list({case_id_glue, attribute_key, target_attribute_key})]
     filt_dif_shifted = filt_df.shift(-1)
     filt_dif_shifted.columns = [str(col) + '_2' for col in filt_dif_shifted.columns]
     stacked_df = pandas_utils.concat([filt_df, filt_dif_shifted], axis=1)
     stacked_df = stacked_df[stacked_df[case_id_glue] == stacked_df[case_id_glue + '_2']]
-    stacked_df["@@path"] = stacked_df[attribute_key] + DEFAULT_VARIANT_SEP + stacked_df[target_attribute_key + "_2"]
+    stacked_df["@@path"] = list(zip(stacked_df[attribute_key], stacked_df[target_attribute_key + "_2"]))
     stacked_df = stacked_df[stacked_df["@@path"].isin(paths)]
     i1 = df.set_index(case_id_glue).index
     i2 = stacked_df.set_index(case_id_glue).index
@@ -121,7 +121,6 @@ def apply_performance(df: pd.DataFrame, provided_path: Tuple[str, str], paramete
     attribute_key = exec_utils.get_param_value(Parameters.ATTRIBUTE_KEY, parameters, DEFAULT_NAME_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, DEFAULT_TIMESTAMP_KEY)
     positive = exec_utils.get_param_value(Parameters.POSITIVE, parameters, True)
-    provided_path = provided_path[0] + DEFAULT_VARIANT_SEP + provided_path[1]
     min_performance = exec_utils.get_param_value(Parameters.MIN_PERFORMANCE, parameters, 0)
     max_performance = exec_utils.get_param_value(Parameters.MAX_PERFORMANCE, parameters, sys.maxsize)
     df = df.sort_values([case_id_glue, timestamp_key])
@@ -129,8 +128,9 @@ def apply_performance(df: pd.DataFrame, provided_path: Tuple[str, str], paramete
     filt_dif_shifted = filt_df.shift(-1)
     filt_dif_shifted.columns = [str(col) + '_2' for col in filt_dif_shifted.columns]
     stacked_df = pandas_utils.concat([filt_df, filt_dif_shifted], axis=1)
-    stacked_df["@@path"] = stacked_df[attribute_key] + DEFAULT_VARIANT_SEP + stacked_df[attribute_key + "_2"]
-    stacked_df = stacked_df[stacked_df["@@path"] == provided_path]
+    # the two events of a path belong to the same case
+    stacked_df = stacked_df[stacked_df[case_id_glue] == stacked_df[case_id_glue + '_2']]
+    stacked_df = stacked_df[(stacked_df[attribute_key] == provided_path[0]) & (stacked_df[attribute_key + "_2"] == provided_path[1])]
     stacked_df["@@timedelta"] = pandas_utils.get_total_seconds(stacked_df[timestamp_key + "_2"] - stacked_df[timestamp_key])
     stacked_df = stacked_df[stacked_df["@@timedelta"] >= min_performance]
     stacked_df = stacked_df[stacked_df["@@timedelta"] <= max_performance]
-- 
2.43.0


From 9b1efdebec0bdf0b7840c15663fed01a7587a15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:37 +0000
Subject: [PATCH 067/104] fix: intersecting-cases time filter on dataframes
 must include its bounds

---
 pm4py/algo/filtering/pandas/timestamp/timestamp_filter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pm4py/algo/filtering/pandas/timestamp/timestamp_filter.py b/pm4py/algo/filtering/pandas/timestamp/timestamp_filter.py
index 40c4e81..07e94db 100644
--- a/pm4py/algo/filtering/pandas/timestamp/timestamp_filter.py
+++ b/pm4py/algo/filtering/pandas/timestamp/timestamp_filter.py
@@ -108,10 +108,10 @@ def filter_traces_intersecting(df: pd.DataFrame, dt1: Union[str, datetime.dateti
     last = grouped_df.last()
     last.columns = [str(col) + '_2' for col in last.columns]
     stacked = pandas_utils.concat([first, last], axis=1)
-    stacked1 = stacked[stacked[timestamp_key] > dt1]
-    stacked1 = stacked1[stacked1[timestamp_key] < dt2]
-    stacked2 = stacked[stacked[timestamp_key + "_2"] > dt1]
-    stacked2 = stacked2[stacked2[timestamp_key + "_2"] < dt2]
+    stacked1 = stacked[stacked[timestamp_key] >= dt1]
+    stacked1 = stacked1[stacked1[timestamp_key] <= dt2]
+    stacked2 = stacked[stacked[timestamp_key + "_2"] >= dt1]
+    stacked2 = stacked2[stacked2[timestamp_key + "_2"] <= dt2]
     stacked3 = stacked[stacked[timestamp_key] < dt1]
     stacked3 = stacked3[stacked3[timestamp_key + "_2"] > dt2]
     stacked = pandas_utils.concat([stacked1, stacked2, stacked3], axis=0)
-- 
2.43.0


From 91bf3619ba71fbfa86c53c439ee65889506b78c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:37 +0000
Subject: [PATCH 068/104] fix: trace segment, starts-with and ends-with filters
 must compare whole activities

---
 .../filtering/common/traces/infix_to_regex.py | 29 +++++++++++++++++++
 .../algo/filtering/log/traces/trace_filter.py |  8 ++---
 .../pandas/ends_with/ends_with_filter.py      | 16 ++++------
 .../pandas/starts_with/starts_with_filter.py  | 16 ++++------
 .../filtering/pandas/traces/trace_filter.py   | 14 ++-------
 5 files changed, 47 insertions(+), 36 deletions(-)

diff --git a/pm4py/algo/filtering/common/traces/infix_to_regex.py b/pm4py/algo/filtering/common/traces/infix_to_regex.py
index f0a53ee..34683d4 100644
--- a/pm4py/algo/filtering/common/traces/infix_to_regex.py
+++ b/pm4py/algo/filtering/common/traces/infix_to_regex.py
@@ -31,3 +31,32 @@ def translate_infix_to_regex(infix):
 
     regex = f"{regex}$"
     return regex
+
+
+def matches_infix(infix, activities):
+    """
+    Checks if a sequence of activities matches an infix, i.e., a list of activities and "..."
+    (which stands for any number of activities)
+
+    Parameters
+    ---------------
+    infix
+        List of activities and "..."
+    activities
+        Sequence of activities
+
+    Returns
+    ---------------
+    boolean
+        Boolean value
+    """
+    # positions of the sequence that are reachable after the elements of the infix read so far
+    positions = {0}
+    for act in infix:
+        if not positions:
+            return False
+        if act == "...":
+            positions = set(range(min(positions), len(activities) + 1))
+        else:
+            positions = {i + 1 for i in positions if i < len(activities) and activities[i] == act}
+    return len(activities) in positions
diff --git a/pm4py/algo/filtering/log/traces/trace_filter.py b/pm4py/algo/filtering/log/traces/trace_filter.py
index 982a2fa..39e4c50 100644
--- a/pm4py/algo/filtering/log/traces/trace_filter.py
+++ b/pm4py/algo/filtering/log/traces/trace_filter.py
@@ -14,12 +14,11 @@
     You should have received a copy of the GNU General Public License
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
-import re
 from enum import Enum
 from pm4py.util import exec_utils, constants, xes_constants
 from typing import Optional, Dict, Any, Union, List
 from pm4py.objects.conversion.log import converter as log_converter
-from pm4py.algo.filtering.common.traces.infix_to_regex import translate_infix_to_regex
+from pm4py.algo.filtering.common.traces.infix_to_regex import matches_infix
 from pm4py.objects.log.obj import EventLog, EventStream
 import pandas as pd
 
@@ -63,13 +62,12 @@ def apply(log: Union[EventLog, EventStream, pd.DataFrame], admitted_traces: List
 
     log = log_converter.apply(log, variant=log_converter.Variants.TO_EVENT_LOG, parameters=parameters)
 
-    filter_regex = "|".join([f"({translate_infix_to_regex(inf)})" for inf in admitted_traces])
     filtered_log = EventLog(attributes=log.attributes, extensions=log.extensions, classifiers=log.classifiers,
             omni_present=log.omni_present, properties=log.properties)
 
     for case in log:
-        t = constants.DEFAULT_VARIANT_SEP.join([x[activity_key] for x in case])
-        found = bool(re.search(filter_regex, t))
+        t = [x[activity_key] for x in case]
+        found = any(matches_infix(inf, t) for inf in admitted_traces)
         if (positive and found) or (not positive and not found):
             filtered_log.append(case)
 
diff --git a/pm4py/algo/filtering/pandas/ends_with/ends_with_filter.py b/pm4py/algo/filtering/pandas/ends_with/ends_with_filter.py
index a959e06..c1a3a0d 100644
--- a/pm4py/algo/filtering/pandas/ends_with/ends_with_filter.py
+++ b/pm4py/algo/filtering/pandas/ends_with/ends_with_filter.py
@@ -63,16 +63,12 @@ def apply(df: pd.DataFrame, admitted_suffixes: List[str], parameters: Optional[D
     variants_df = parameters["variants_df"] if "variants_df" in parameters else get_variants_df(df,
                                                                                                 parameters=parameters)
 
-    admitted_suffixes = list(admitted_suffixes)
-    first_case_variant = variants_df["variant"].iloc[0]
-    if isinstance(first_case_variant, tuple):
-        # manage that as tuple
-        variants_df = variants_df.copy()
-        variants_df["variant"] = variants_df["variant"].apply(lambda x: constants.DEFAULT_VARIANT_SEP.join(list(x)))
-        admitted_suffixes = [constants.DEFAULT_VARIANT_SEP.join(x) for x in admitted_suffixes]
-    admitted_suffixes = tuple(admitted_suffixes)
-
-    variants_df = variants_df[variants_df["variant"].str.endswith(admitted_suffixes)]
+    # the comparison considers entire activities (and not the characters of their concatenation)
+    sep = constants.DEFAULT_VARIANT_SEP
+    admitted_suffixes = [tuple(x.split(sep)) if isinstance(x, str) else tuple(x) for x in admitted_suffixes]
+    variants = [tuple(x.split(sep)) if isinstance(x, str) else tuple(x) for x in variants_df["variant"]]
+    found = [any(len(y) <= len(x) and x[len(x) - len(y):] == y for y in admitted_suffixes) for x in variants]
+    variants_df = variants_df[found]
 
     i1 = df.set_index(case_id_glue).index
     i2 = variants_df.index
diff --git a/pm4py/algo/filtering/pandas/starts_with/starts_with_filter.py b/pm4py/algo/filtering/pandas/starts_with/starts_with_filter.py
index 880aeff..ef22281 100644
--- a/pm4py/algo/filtering/pandas/starts_with/starts_with_filter.py
+++ b/pm4py/algo/filtering/pandas/starts_with/starts_with_filter.py
@@ -63,16 +63,12 @@ def apply(df: pd.DataFrame, admitted_prefixes: List[str], parameters: Optional[D
     variants_df = parameters["variants_df"] if "variants_df" in parameters else get_variants_df(df,
                                                                                                 parameters=parameters)
 
-    admitted_prefixes = list(admitted_prefixes)
-    first_case_variant = variants_df["variant"].iloc[0]
-    if isinstance(first_case_variant, tuple):
-        # manage that as tuple
-        variants_df = variants_df.copy()
-        variants_df["variant"] = variants_df["variant"].apply(lambda x: constants.DEFAULT_VARIANT_SEP.join(list(x)))
-        admitted_prefixes = [constants.DEFAULT_VARIANT_SEP.join(x) for x in admitted_prefixes]
-    admitted_prefixes = tuple(admitted_prefixes)
-
-    variants_df = variants_df[variants_df["variant"].str.startswith(admitted_prefixes)]
+    # the comparison considers entire activities (and not the characters of their concatenation)
+    sep = constants.DEFAULT_VARIANT_SEP
+    admitted_prefixes = [tuple(x.split(sep)) if isinstance(x, str) else tuple(x) for x in admitted_prefixes]
+    variants = [tuple(x.split(sep)) if isinstance(x, str) else tuple(x) for x in variants_df["variant"]]
+    found = [any(len(y) <= len(x) and x[:len(y)] == y for y in admitted_prefixes) for x in variants]
+    variants_df = variants_df[found]
 
     i1 = df.set_index(case_id_glue).index
     i2 = variants_df.index
diff --git a/pm4py/algo/filtering/pandas/traces/trace_filter.py b/pm4py/algo/filtering/pandas/traces/trace_filter.py
index b9c410d..b9a133f 100644
--- a/pm4py/algo/filtering/pandas/traces/trace_filter.py
+++ b/pm4py/algo/filtering/pandas/traces/trace_filter.py
@@ -20,12 +20,11 @@ from pm4py.statistics.traces.generic.pandas.case_statistics import get_variants_
 from pm4py.util.constants import PARAMETER_CONSTANT_CASEID_KEY, PARAMETER_CONSTANT_ACTIVITY_KEY
 from enum import Enum
 from pm4py.util import exec_utils
-from pm4py.algo.filtering.common.traces.infix_to_regex import translate_infix_to_regex
+from pm4py.algo.filtering.common.traces.infix_to_regex import matches_infix
 from copy import copy
 from typing import Optional, Dict, Any, Union, List
 import pandas as pd
 from pm4py.util import constants
-import re
 
 
 class Parameters(Enum):
@@ -67,15 +66,8 @@ def apply(df: pd.DataFrame, admitted_traces: List[List[str]],
     variants_df = parameters["variants_df"] if "variants_df" in parameters else get_variants_df(df,
                                                                                                 parameters=parameters)
 
-    first_case_variant = variants_df["variant"].iloc[0]
-    if isinstance(first_case_variant, tuple):
-        # manage that as tuple
-        variants_df = variants_df.copy()
-        variants_df["variant"] = variants_df["variant"].apply(lambda x: constants.DEFAULT_VARIANT_SEP.join(list(x)))
-
-    filter_regex = "|".join([f"({translate_infix_to_regex(inf)})" for inf in admitted_traces])
-    variants_df["matches_infix"] = variants_df["variant"].apply(lambda t: bool(re.search(filter_regex, t)))
-    variants_df = variants_df[variants_df["matches_infix"]]
+    found = [any(matches_infix(inf, t if isinstance(t, tuple) else t.split(constants.DEFAULT_VARIANT_SEP)) for inf in admitted_traces) for t in variants_df["variant"]]
+    variants_df = variants_df[found]
 
     i1 = df.set_index(case_id_glue).index
     i2 = variants_df.index
-- 
2.43.0


From d44e0590a25967bfae94fc5a786a4afea0a48c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:37 +0000
Subject: [PATCH 069/104] fix: attribute filters must handle events without the
 attribute and complement whole cases

---
 .../log/attributes/attributes_filter.py       | 44 ++++++-------------
 .../pandas/attributes/attributes_filter.py    |  2 +-
 2 files changed, 14 insertions(+), 32 deletions(-)

diff --git a/pm4py/algo/filtering/log/attributes/attributes_filter.py b/pm4py/algo/filtering/log/attributes/attributes_filter.py
index d3916ee..5d410f4 100644
--- a/pm4py/algo/filtering/log/attributes/attributes_filter.py
+++ b/pm4py/algo/filtering/log/attributes/attributes_filter.py
@@ -71,9 +71,7 @@ def apply_numeric(log: EventLog, int1: float, int2: float, parameters: Optional[
     log = log_converter.apply(log, variant=log_converter.Variants.TO_EVENT_LOG, parameters=parameters)
 
     attribute_key = exec_utils.get_param_value(Parameters.ATTRIBUTE_KEY, parameters, DEFAULT_NAME_KEY)
-    case_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, xes.DEFAULT_TRACEID_KEY)
     positive = exec_utils.get_param_value(Parameters.POSITIVE, parameters, True)
-    case_attribute_prefix = exec_utils.get_param_value(Parameters.PARAMETER_KEY_CASE_GLUE, parameters, constants.CASE_ATTRIBUTE_PREFIX)
     # stream_filter_key is helpful to filter on cases containing an event with an attribute
     # in the specified value set, but such events shall have an activity in particular.
 
@@ -82,38 +80,22 @@ def apply_numeric(log: EventLog, int1: float, int2: float, parameters: Optional[
     stream_filter_key2 = exec_utils.get_param_value(Parameters.STREAM_FILTER_KEY2, parameters, None)
     stream_filter_value2 = exec_utils.get_param_value(Parameters.STREAM_FILTER_VALUE2, parameters, None)
 
-    conversion_parameters = copy(parameters)
-    conversion_parameters["deepcopy"] = False
-
-    stream = log_converter.apply(log, variant=log_converter.TO_EVENT_STREAM, parameters=conversion_parameters)
-    if stream_filter_key1 is not None:
-        stream = EventStream(
-            list(filter(lambda x: stream_filter_key1 in x and x[stream_filter_key1] == stream_filter_value1, stream)),
-            attributes=log.attributes, extensions=log.extensions, classifiers=log.classifiers,
-            omni_present=log.omni_present, properties=log.properties)
-    if stream_filter_key2 is not None:
-        stream = EventStream(
-            list(filter(lambda x: stream_filter_key2 in x and x[stream_filter_key2] == stream_filter_value2, stream)),
-            attributes=log.attributes, extensions=log.extensions, classifiers=log.classifiers,
-            omni_present=log.omni_present, properties=log.properties)
-
-    if positive:
-        stream = EventStream(list(filter(lambda x: attribute_key in x and int1 <= x[attribute_key] <= int2, stream)),
-                             attributes=log.attributes, extensions=log.extensions, classifiers=log.classifiers,
-                             omni_present=log.omni_present, properties=log.properties)
-    else:
-        stream = EventStream(
-            list(filter(lambda x: attribute_key in x and (x[attribute_key] < int1 or x[attribute_key] > int2), stream)),
-            attributes=log.attributes, extensions=log.extensions, classifiers=log.classifiers,
-            omni_present=log.omni_present, properties=log.properties)
-
-    all_cases_ids = set(x[case_attribute_prefix + case_key] for x in stream)
+    def has_matching_event(case):
+        for x in case:
+            if stream_filter_key1 is not None and not (stream_filter_key1 in x and x[stream_filter_key1] == stream_filter_value1):
+                continue
+            if stream_filter_key2 is not None and not (stream_filter_key2 in x and x[stream_filter_key2] == stream_filter_value2):
+                continue
+            if attribute_key in x and int1 <= x[attribute_key] <= int2:
+                return True
+        return False
 
     filtered_log = EventLog(list(), attributes=log.attributes, extensions=log.extensions, classifiers=log.classifiers,
                             omni_present=log.omni_present, properties=log.properties)
 
     for case in log:
-        if case.attributes[case_key] in all_cases_ids:
+        # keep (or remove) the cases with such events
+        if has_matching_event(case) == positive:
             filtered_log.append(case)
 
     return filtered_log
@@ -198,11 +180,11 @@ def apply_events(log: EventLog, values: List[str], parameters: Optional[Dict[Uni
 
     stream = log_converter.apply(log, variant=log_converter.TO_EVENT_STREAM, parameters=conversion_parameters)
     if positive:
-        stream = EventStream(list(filter(lambda x: x[attribute_key] in values, stream)), attributes=log.attributes,
+        stream = EventStream(list(filter(lambda x: attribute_key in x and x[attribute_key] in values, stream)), attributes=log.attributes,
                              extensions=log.extensions, classifiers=log.classifiers,
                              omni_present=log.omni_present, properties=log.properties)
     else:
-        stream = EventStream(list(filter(lambda x: x[attribute_key] not in values, stream)), attributes=log.attributes,
+        stream = EventStream(list(filter(lambda x: attribute_key not in x or x[attribute_key] not in values, stream)), attributes=log.attributes,
                              extensions=log.extensions, classifiers=log.classifiers,
                              omni_present=log.omni_present, properties=log.properties)
 
diff --git a/pm4py/algo/filtering/pandas/attributes/attributes_filter.py b/pm4py/algo/filtering/pandas/attributes/attributes_filter.py
index ad24dfe..a5b6337 100644
--- a/pm4py/algo/filtering/pandas/attributes/attributes_filter.py
+++ b/pm4py/algo/filtering/pandas/attributes/attributes_filter.py
@@ -305,7 +305,7 @@ def filter_df_keeping_spno_activities(df: pd.DataFrame, activity_key: str = "con
         ret = df
 
     ret.attrs = copy(df.attrs) if hasattr(df, 'attrs') else {}
-    return df
+    return ret
 
 
 def filter_df_relative_occurrence_event_attribute(df: pd.DataFrame, min_relative_stake: float, parameters: Optional[Dict[Any, Any]] = None) -> pd.DataFrame:
-- 
2.43.0


From a8d526fae7e67040c78644023f35af7464d05ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:37 +0000
Subject: [PATCH 070/104] fix: sub-case and case filters must keep case
 identities and log attributes

---
 pm4py/algo/filtering/log/between/between_filter.py   |  3 +++
 pm4py/algo/filtering/log/cases/case_filter.py        | 12 ++++++++----
 .../algo/filtering/pandas/prefixes/prefix_filter.py  |  2 ++
 .../algo/filtering/pandas/suffixes/suffix_filter.py  |  2 ++
 4 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/pm4py/algo/filtering/log/between/between_filter.py b/pm4py/algo/filtering/log/between/between_filter.py
index 046a6ae..dbe3067 100644
--- a/pm4py/algo/filtering/log/between/between_filter.py
+++ b/pm4py/algo/filtering/log/between/between_filter.py
@@ -67,6 +67,9 @@ def apply(log: EventLog, act1: Union[str, List[str]], act2: Union[str, List[str]
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
     case_id_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, xes_constants.DEFAULT_TRACEID_KEY)
+    if case_id_key.startswith(constants.CASE_ATTRIBUTE_PREFIX):
+        # the attributes of the traces do not have the prefix of the case attributes
+        case_id_key = case_id_key[len(constants.CASE_ATTRIBUTE_PREFIX):]
     subcase_concat_str = exec_utils.get_param_value(Parameters.SUBCASE_CONCAT_STR, parameters, "##@@")
 
     act1_comparison = lambda x: (x == act1) if type(act1) is str else (x in act1)
diff --git a/pm4py/algo/filtering/log/cases/case_filter.py b/pm4py/algo/filtering/log/cases/case_filter.py
index a10a54b..02f2d93 100644
--- a/pm4py/algo/filtering/log/cases/case_filter.py
+++ b/pm4py/algo/filtering/log/cases/case_filter.py
@@ -54,7 +54,8 @@ def filter_on_case_performance(log: EventLog, inf_perf: float, sup_perf: float,
     log = log_converter.apply(log, variant=log_converter.Variants.TO_EVENT_LOG, parameters=parameters)
 
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, DEFAULT_TIMESTAMP_KEY)
-    filtered_log = EventLog([trace for trace in log if satisfy_perf(trace, inf_perf, sup_perf, timestamp_key)])
+    filtered_log = EventLog([trace for trace in log if satisfy_perf(trace, inf_perf, sup_perf, timestamp_key)], attributes=log.attributes, extensions=log.extensions,
+                            omni_present=log.omni_present, classifiers=log.classifiers, properties=log.properties)
     return filtered_log
 
 
@@ -76,7 +77,8 @@ def filter_on_ncases(log: EventLog, max_no_cases: int = 1000) -> EventLog:
     """
     log = log_converter.apply(log, variant=log_converter.Variants.TO_EVENT_LOG)
 
-    filtered_log = EventLog(log[:min(len(log), max_no_cases)])
+    filtered_log = EventLog(log[:min(len(log), max_no_cases)], attributes=log.attributes, extensions=log.extensions,
+                            omni_present=log.omni_present, classifiers=log.classifiers, properties=log.properties)
     return filtered_log
 
 
@@ -101,9 +103,11 @@ def filter_on_case_size(log: EventLog, min_case_size: int = 2, max_case_size=Non
     log = log_converter.apply(log, variant=log_converter.Variants.TO_EVENT_LOG)
 
     if max_case_size is not None:
-        filtered_log = EventLog([trace for trace in log if min_case_size <= len(trace) <= max_case_size])
+        filtered_log = EventLog([trace for trace in log if min_case_size <= len(trace) <= max_case_size], attributes=log.attributes, extensions=log.extensions,
+                            omni_present=log.omni_present, classifiers=log.classifiers, properties=log.properties)
     else:
-        filtered_log = EventLog([trace for trace in log if len(trace) >= min_case_size])
+        filtered_log = EventLog([trace for trace in log if len(trace) >= min_case_size], attributes=log.attributes, extensions=log.extensions,
+                            omni_present=log.omni_present, classifiers=log.classifiers, properties=log.properties)
     return filtered_log
 
 
diff --git a/pm4py/algo/filtering/pandas/prefixes/prefix_filter.py b/pm4py/algo/filtering/pandas/prefixes/prefix_filter.py
index c66bb39..10a0cd7 100644
--- a/pm4py/algo/filtering/pandas/prefixes/prefix_filter.py
+++ b/pm4py/algo/filtering/pandas/prefixes/prefix_filter.py
@@ -71,6 +71,8 @@ def apply(df: pd.DataFrame, activity: str, parameters: Optional[Dict[Any, Any]]
 
     if index_in_trace_key not in df.columns:
         df = pandas_utils.insert_ev_in_tr_index(df, column_name=index_in_trace_key, case_id=case_id_key)
+    else:
+        df = df.copy()
 
     position_activity = df[df[activity_key] == activity].groupby(case_id_key)
     if first_or_last == "first":
diff --git a/pm4py/algo/filtering/pandas/suffixes/suffix_filter.py b/pm4py/algo/filtering/pandas/suffixes/suffix_filter.py
index 729784e..b70c1c2 100644
--- a/pm4py/algo/filtering/pandas/suffixes/suffix_filter.py
+++ b/pm4py/algo/filtering/pandas/suffixes/suffix_filter.py
@@ -71,6 +71,8 @@ def apply(df: pd.DataFrame, activity: str, parameters: Optional[Dict[Any, Any]]
 
     if index_in_trace_key not in df.columns:
         df = pandas_utils.insert_ev_in_tr_index(df, column_name=index_in_trace_key, case_id=case_id_key)
+    else:
+        df = df.copy()
 
     position_activity = df[df[activity_key] == activity].groupby(case_id_key)
     if first_or_last == "first":
-- 
2.43.0


From 2abdf81f1423619437959a8d70b9a6a5aad48d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:37 +0000
Subject: [PATCH 071/104] fix: consecutive and simultaneous event grouping must
 not join neighbouring cases

---
 .../consecutive_act_case_grouping_filter.py            |  8 +++-----
 .../timestamp_case_grouping_filter.py                  | 10 +++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/pm4py/algo/filtering/pandas/consecutive_act_case_grouping/consecutive_act_case_grouping_filter.py b/pm4py/algo/filtering/pandas/consecutive_act_case_grouping/consecutive_act_case_grouping_filter.py
index 4818641..6107a2f 100644
--- a/pm4py/algo/filtering/pandas/consecutive_act_case_grouping/consecutive_act_case_grouping_filter.py
+++ b/pm4py/algo/filtering/pandas/consecutive_act_case_grouping/consecutive_act_case_grouping_filter.py
@@ -57,17 +57,15 @@ def apply(log_obj: Union[EventLog, EventStream, pd.DataFrame], parameters: Optio
     filter_type = exec_utils.get_param_value(Parameters.FILTER_TYPE, parameters, "first")
 
     dataframe = log_converter.apply(log_obj, variant=log_converter.Variants.TO_DATA_FRAME, parameters=parameters).copy()
-    dataframe["@@extra1"] = dataframe[case_id_key] + dataframe[activity_key]
-    utility_df = (dataframe["@@extra1"] != dataframe["@@extra1"].shift())
+    utility_df = (dataframe[case_id_key] != dataframe[case_id_key].shift()) | (dataframe[activity_key] != dataframe[activity_key].shift())
     utility_df = utility_df.fillna(False).cumsum()
     gdf = dataframe.groupby(utility_df, sort=False)
 
     if filter_type == "first":
-        dataframe = gdf.first()
+        dataframe = gdf.head(1)
     elif filter_type == "last":
-        dataframe = gdf.last()
+        dataframe = gdf.tail(1)
 
     dataframe = dataframe.reset_index(drop=True)
-    del dataframe["@@extra1"]
 
     return dataframe
diff --git a/pm4py/algo/filtering/pandas/timestamp_case_grouping/timestamp_case_grouping_filter.py b/pm4py/algo/filtering/pandas/timestamp_case_grouping/timestamp_case_grouping_filter.py
index e339617..aac24ce 100644
--- a/pm4py/algo/filtering/pandas/timestamp_case_grouping/timestamp_case_grouping_filter.py
+++ b/pm4py/algo/filtering/pandas/timestamp_case_grouping/timestamp_case_grouping_filter.py
@@ -67,12 +67,12 @@ def apply(log_obj: Union[EventLog, EventStream, pd.DataFrame], parameters: Optio
 
     ret = None
     if filter_type == "first":
-        ret = gdf.first()
+        ret = gdf.head(1)
     elif filter_type == "last":
-        ret = gdf.last()
+        ret = gdf.tail(1)
     elif filter_type == "concat":
-        ret = gdf.first()
-        ret[activity_key] = gdf[activity_key].agg(list).apply(lambda x: " & ".join(sorted(list(x))))
+        ret = gdf.head(1).copy()
+        ret[activity_key] = gdf[activity_key].agg(list).apply(lambda x: " & ".join(sorted(list(x)))).to_numpy()
 
-    ret = ret.reset_index()
+    ret = ret.reset_index(drop=True)
     return ret
-- 
2.43.0


From 40c96b4e9fca3c01c8c4ada85ea149e1fdfb32a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:41 +0000
Subject: [PATCH 072/104] fix: eventually-follows rule with time boundaries and
 with three or more values

---
 pm4py/algo/filtering/log/ltl/ltl_checker.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pm4py/algo/filtering/log/ltl/ltl_checker.py b/pm4py/algo/filtering/log/ltl/ltl_checker.py
index 7aec690..431e6ae 100644
--- a/pm4py/algo/filtering/log/ltl/ltl_checker.py
+++ b/pm4py/algo/filtering/log/ltl/ltl_checker.py
@@ -86,8 +86,8 @@ def eventually_follows(log: EventLog, attribute_values: List[str], parameters: O
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, DEFAULT_TIMESTAMP_KEY)
 
     positive = exec_utils.get_param_value(Parameters.POSITIVE, parameters, True)
-    enable_timestamp = exec_utils.get_param_value(Parameters.ENABLE_TIMESTAMP, parameters, False)
     timestamp_diff_boundaries = exec_utils.get_param_value(Parameters.TIMESTAMP_DIFF_BOUNDARIES, parameters, [])
+    enable_timestamp = exec_utils.get_param_value(Parameters.ENABLE_TIMESTAMP, parameters, len(timestamp_diff_boundaries) > 0)
 
     new_log = EventLog(list(), attributes=log.attributes, extensions=log.extensions, classifiers=log.classifiers,
                        omni_present=log.omni_present, properties=log.properties)
@@ -107,8 +107,8 @@ def eventually_follows(log: EventLog, attribute_values: List[str], parameters: O
             if ok:
                 if enable_timestamp and timestamp_diff_boundaries:
                     for i in range(len(c)-1):
-                        timest_i = trace[i][timestamp_key].timestamp()
-                        timest_j = trace[i+1][timestamp_key].timestamp()
+                        timest_i = trace[c[i]][timestamp_key].timestamp()
+                        timest_j = trace[c[i+1]][timestamp_key].timestamp()
                         if timest_j - timest_i < timestamp_diff_boundaries[i][0] or timest_j - timest_i > timestamp_diff_boundaries[i][1]:
                             ok = False
                             break
-- 
2.43.0


From eab26309756b40c07804a60557e4454af85c41ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:41 +0000
Subject: [PATCH 073/104] fix: dataframe rule filters must consider every
 occurrence in a case

---
 .../pandas/attr_value_repetition/filter.py    |  8 ++---
 .../algo/filtering/pandas/ltl/ltl_checker.py  | 34 ++++++-------------
 2 files changed, 13 insertions(+), 29 deletions(-)

diff --git a/pm4py/algo/filtering/pandas/attr_value_repetition/filter.py b/pm4py/algo/filtering/pandas/attr_value_repetition/filter.py
index ec75811..4a15748 100644
--- a/pm4py/algo/filtering/pandas/attr_value_repetition/filter.py
+++ b/pm4py/algo/filtering/pandas/attr_value_repetition/filter.py
@@ -62,11 +62,9 @@ def apply(df: pd.DataFrame, value: Any, parameters: Optional[Dict[Union[str, Par
     min_rep = exec_utils.get_param_value(Parameters.MIN_REP, parameters, 2)
     max_rep = exec_utils.get_param_value(Parameters.MAX_REP, parameters, sys.maxsize)
 
-    filtered_df = df[df[attribute_key] == value]
-    filtered_df = filtered_df.groupby(case_id_key).size().reset_index()
-    filtered_df = filtered_df[filtered_df[0] >= min_rep]
-    filtered_df = filtered_df[filtered_df[0] <= max_rep]
+    repetitions = (df[attribute_key] == value).groupby(df[case_id_key]).sum()
+    repetitions = repetitions[(repetitions >= min_rep) & (repetitions <= max_rep)]
 
-    ret = df[df[case_id_key].isin(filtered_df[case_id_key])]
+    ret = df[df[case_id_key].isin(repetitions.index)]
     ret.attrs = copy(df.attrs) if hasattr(df, 'attrs') else {}
     return ret
diff --git a/pm4py/algo/filtering/pandas/ltl/ltl_checker.py b/pm4py/algo/filtering/pandas/ltl/ltl_checker.py
index b73fb86..49ffadd 100644
--- a/pm4py/algo/filtering/pandas/ltl/ltl_checker.py
+++ b/pm4py/algo/filtering/pandas/ltl/ltl_checker.py
@@ -81,15 +81,13 @@ def eventually_follows(df0: pd.DataFrame, attribute_values: List[str], parameter
     df = df[colset]
     df = pandas_utils.insert_index(df)
 
-    df_a = [df[df[attribute_key] == attribute_value].copy() for attribute_value in attribute_values]
+    df_a = [df[df[attribute_key] == attribute_value].rename(columns={x: x + "_%d" % i for x in df.columns if x != case_id_glue})
+            for i, attribute_value in enumerate(attribute_values)]
 
-    df_join = df_a[0].merge(df_a[1], on=case_id_glue, suffixes=('_0', "_1")).dropna()
-    df_join[constants.DEFAULT_INDEX_KEY] = df_join[constants.DEFAULT_INDEX_KEY + "_0"]
-    df_join["@@diffindex0"] = df_join[constants.DEFAULT_INDEX_KEY + "_1"] - df_join[constants.DEFAULT_INDEX_KEY + "_0"]
-    df_join = df_join[df_join["@@diffindex0"] > 0]
+    df_join = df_a[0].dropna()
 
-    for i in range(2, len(df_a)):
-        df_join = df_join.merge(df_a[i], on=case_id_glue, suffixes=('', "_%d" % i)).dropna()
+    for i in range(1, len(df_a)):
+        df_join = df_join.merge(df_a[i], on=case_id_glue).dropna()
         df_join["@@diffindex%d" % (i - 1)] = df_join[constants.DEFAULT_INDEX_KEY + "_%d" % i] - df_join[
             constants.DEFAULT_INDEX_KEY + "_%d" % (i - 1)]
         df_join = df_join[df_join["@@diffindex%d" % (i - 1)] > 0]
@@ -147,20 +145,9 @@ def A_next_B_next_C(df0: pd.DataFrame, A: str, B: str, C: str, parameters: Optio
 
     df = df0.copy()
     df = df[[case_id_glue, attribute_key]]
-    df = pandas_utils.insert_index(df)
-    df_A = df[df[attribute_key] == A].copy()
-    df_B = df[df[attribute_key] == B].copy()
-    df_C = df[df[attribute_key] == C].copy()
-    df_B["@@conceptname"] = df_B[case_id_glue]
-    df_B = df_B.groupby(case_id_glue).last().set_index("@@conceptname")
-    df_C["@@conceptname"] = df_C[case_id_glue]
-    df_C = df_C.groupby(case_id_glue).last().set_index("@@conceptname")
-
-    df_join = df_A.join(df_B, on=case_id_glue, rsuffix="_2").dropna().join(df_C, on=case_id_glue, rsuffix="_3").dropna()
-    df_join["@@diffindex"] = df_join[constants.DEFAULT_INDEX_KEY + "_2"] - df_join[constants.DEFAULT_INDEX_KEY]
-    df_join["@@diffindex2"] = df_join[constants.DEFAULT_INDEX_KEY + "_3"] - df_join[constants.DEFAULT_INDEX_KEY + "_2"]
-    df_join = df_join[df_join["@@diffindex"] == 1]
-    df_join = df_join[df_join["@@diffindex2"] == 1]
+    # the values of the next two events of the same case
+    activities = df.groupby(case_id_glue)[attribute_key]
+    df_join = df[(df[attribute_key] == A) & (activities.shift(-1) == B) & (activities.shift(-2) == C)]
 
     i1 = df.set_index(case_id_glue).index
     i2 = df_join.set_index(case_id_glue).index
@@ -211,10 +198,9 @@ def four_eyes_principle(df0: pd.DataFrame, A: str, B: str, parameters: Optional[
 
     df_A = df[df[attribute_key] == A].copy()
     df_B = df[df[attribute_key] == B].copy()
-    df_B["@@conceptname"] = df_B[case_id_glue]
-    df_B = df_B.groupby(case_id_glue).last().set_index("@@conceptname")
 
-    df_join = df_A.join(df_B, on=case_id_glue, rsuffix="_2").dropna()
+    # all the pairs of an A event and a B event of the same case
+    df_join = df_A.merge(df_B, on=case_id_glue, suffixes=("", "_2")).dropna()
     df_join_pos = df_join[df_join[resource_key] == df_join[resource_key + "_2"]]
     df_join_neg = df_join[df_join[resource_key] != df_join[resource_key + "_2"]]
 
-- 
2.43.0


From 5dca2b940c683ed71267c2308b481e4990ea1c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:20 +0000
Subject: [PATCH 074/104] fix: cycle time must include the last busy period

---
 pm4py/statistics/traces/cycle_time/log/get.py      | 2 +-
 pm4py/statistics/traces/cycle_time/util/compute.py | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pm4py/statistics/traces/cycle_time/log/get.py b/pm4py/statistics/traces/cycle_time/log/get.py
index db3e57f..55b0ec3 100644
--- a/pm4py/statistics/traces/cycle_time/log/get.py
+++ b/pm4py/statistics/traces/cycle_time/log/get.py
@@ -59,8 +59,8 @@ def apply(log_or_trace: Union[Trace, EventLog], parameters: Optional[Dict[Union[
     if parameters is None:
         parameters = {}
 
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
 
     if type(log_or_trace) is Trace:
         log = EventLog()
diff --git a/pm4py/statistics/traces/cycle_time/util/compute.py b/pm4py/statistics/traces/cycle_time/util/compute.py
index 22c3156..e7befa7 100644
--- a/pm4py/statistics/traces/cycle_time/util/compute.py
+++ b/pm4py/statistics/traces/cycle_time/util/compute.py
@@ -62,4 +62,7 @@ def cycle_time(events: List[Tuple[float, float]], num_instances: int) -> float:
 
         et = max(et, this_et)
 
+    # the last period in which some event is active
+    production_time += (et - st)
+
     return production_time / num_instances
-- 
2.43.0


From e3913b2809050d60ffd304ab46a568e497e94318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:20 +0000
Subject: [PATCH 075/104] fix: overlap must count identical intervals

---
 pm4py/statistics/overlap/cases/log/get.py              | 3 +--
 pm4py/statistics/overlap/cases/pandas/get.py           | 3 +--
 pm4py/statistics/overlap/interval_events/log/get.py    | 3 +--
 pm4py/statistics/overlap/interval_events/pandas/get.py | 5 ++---
 pm4py/statistics/overlap/utils/compute.py              | 5 +++--
 5 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/pm4py/statistics/overlap/cases/log/get.py b/pm4py/statistics/overlap/cases/log/get.py
index b6559d1..c859bea 100644
--- a/pm4py/statistics/overlap/cases/log/get.py
+++ b/pm4py/statistics/overlap/cases/log/get.py
@@ -53,8 +53,7 @@ def apply(log: EventLog, parameters: Optional[Dict[Union[str, Parameters], Any]]
 
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
 
     points = []
     for trace in log:
diff --git a/pm4py/statistics/overlap/cases/pandas/get.py b/pm4py/statistics/overlap/cases/pandas/get.py
index 1546bc5..28dec3b 100644
--- a/pm4py/statistics/overlap/cases/pandas/get.py
+++ b/pm4py/statistics/overlap/cases/pandas/get.py
@@ -52,8 +52,7 @@ def apply(df: pd.DataFrame, parameters: Optional[Dict[Union[str, Parameters], An
 
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     case_id_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, constants.CASE_CONCEPT_NAME)
 
     columns = list({timestamp_key, start_timestamp_key, case_id_key})
diff --git a/pm4py/statistics/overlap/interval_events/log/get.py b/pm4py/statistics/overlap/interval_events/log/get.py
index 1c7ddad..a757ced 100644
--- a/pm4py/statistics/overlap/interval_events/log/get.py
+++ b/pm4py/statistics/overlap/interval_events/log/get.py
@@ -52,10 +52,9 @@ def apply(log: Union[EventLog, EventStream], parameters: Optional[Dict[Union[str
         parameters = {}
 
     log = log_converter.apply(log, variant=log_converter.Variants.TO_EVENT_LOG, parameters=parameters)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
 
     points = []
     for trace in log:
diff --git a/pm4py/statistics/overlap/interval_events/pandas/get.py b/pm4py/statistics/overlap/interval_events/pandas/get.py
index cb42670..df06fc3 100644
--- a/pm4py/statistics/overlap/interval_events/pandas/get.py
+++ b/pm4py/statistics/overlap/interval_events/pandas/get.py
@@ -51,10 +51,9 @@ def apply(df: pd.DataFrame, parameters: Optional[Dict[Union[str, Parameters], An
     if parameters is None:
         parameters = {}
 
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
 
     df = df[list({start_timestamp_key, timestamp_key})].to_dict('records')
     points = []
@@ -62,4 +61,4 @@ def apply(df: pd.DataFrame, parameters: Optional[Dict[Union[str, Parameters], An
     for event in df:
         points.append((event[start_timestamp_key].timestamp(), event[timestamp_key].timestamp()))
 
-    return compute.apply(points)
+    return compute.apply(points, parameters=parameters)
diff --git a/pm4py/statistics/overlap/utils/compute.py b/pm4py/statistics/overlap/utils/compute.py
index 37d57b2..e6cda01 100644
--- a/pm4py/statistics/overlap/utils/compute.py
+++ b/pm4py/statistics/overlap/utils/compute.py
@@ -51,8 +51,9 @@ def apply(points: List[Tuple[float, float]], parameters: Optional[Dict[Union[str
     sorted_points = sorted(points)
     tree = IntervalTree()
 
-    for p in sorted_points:
-        tree.add(Interval(p[0], p[1]))
+    for i, p in enumerate(sorted_points):
+        # the index keeps apart the identical intervals
+        tree.add(Interval(p[0], p[1], i))
 
     overlap = []
     for p in points:
-- 
2.43.0


From 37ec1b4561af93af6a04b9a86e6f4e8a5cef48bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:21 +0000
Subject: [PATCH 076/104] fix: first quartile of the case durations

---
 pm4py/statistics/traces/generic/log/case_statistics.py    | 2 +-
 pm4py/statistics/traces/generic/pandas/case_statistics.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pm4py/statistics/traces/generic/log/case_statistics.py b/pm4py/statistics/traces/generic/log/case_statistics.py
index 7ac6bea..76ab27f 100644
--- a/pm4py/statistics/traces/generic/log/case_statistics.py
+++ b/pm4py/statistics/traces/generic/log/case_statistics.py
@@ -283,7 +283,7 @@ def get_first_quartile_case_duration(log: EventLog, parameters: Optional[Dict[Un
 
     duration_values = get_all_case_durations(log, parameters=parameters)
     if duration_values:
-        return duration_values[int((len(duration_values) * 3) / 4)]
+        return duration_values[int(len(duration_values) / 4)]
     return 0
 
 
diff --git a/pm4py/statistics/traces/generic/pandas/case_statistics.py b/pm4py/statistics/traces/generic/pandas/case_statistics.py
index 62cdde3..ebdbbc2 100644
--- a/pm4py/statistics/traces/generic/pandas/case_statistics.py
+++ b/pm4py/statistics/traces/generic/pandas/case_statistics.py
@@ -172,7 +172,7 @@ def get_cases_description(df: pd.DataFrame, parameters: Optional[Dict[Union[str,
     business_hours_slots = exec_utils.get_param_value(Parameters.BUSINESS_HOUR_SLOTS, parameters, constants.DEFAULT_BUSINESS_HOUR_SLOTS)
     workcalendar = exec_utils.get_param_value(Parameters.WORKCALENDAR, parameters, constants.DEFAULT_BUSINESS_HOURS_WORKCALENDAR)
 
-    grouped_df = df[[case_id_glue, timestamp_key]].groupby(df[case_id_glue])
+    grouped_df = df[list({case_id_glue, start_timestamp_key, timestamp_key})].groupby(df[case_id_glue])
     # grouped_df = df[[case_id_glue, timestamp_key]].groupby(df[case_id_glue])
     first_eve_df = grouped_df.first()
     last_eve_df = grouped_df.last()
@@ -416,7 +416,7 @@ def get_first_quartile_case_duration(df, parameters=None):
 
     duration_values = get_all_case_durations(df, parameters=parameters)
     if duration_values:
-        return duration_values[int((len(duration_values) * 3) / 4)]
+        return duration_values[int(len(duration_values) / 4)]
     return 0
 
 
-- 
2.43.0


From fa01c414e7f84025abd073006215bf3a5c9715b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:21 +0000
Subject: [PATCH 077/104] fix: trace attribute values of a dataframe are
 counted per case

---
 pm4py/stats.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pm4py/stats.py b/pm4py/stats.py
index 365971f..67a5bd8 100644
--- a/pm4py/stats.py
+++ b/pm4py/stats.py
@@ -193,6 +193,8 @@ def get_trace_attribute_values(log: Union[EventLog, pd.DataFrame], attribute: st
         if attribute not in log and constants.CASE_ATTRIBUTE_PREFIX + attribute in log:
             # if "attribute" does not exist as column, but "case:attribute" exists, then use that
             attribute = constants.CASE_ATTRIBUTE_PREFIX + attribute
+        # the value of a case is repeated in each of its rows
+        parameters["keep_once_per_case"] = True
         ret = get.get_attribute_values(log, attribute, parameters=parameters)
         return ret
     else:
-- 
2.43.0


From 282d7b7a28357cbfd1159f7bc5f126251a769e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:21 +0000
Subject: [PATCH 078/104] fix: rework of cases with another case id column

---
 pm4py/statistics/rework/cases/pandas/get.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/statistics/rework/cases/pandas/get.py b/pm4py/statistics/rework/cases/pandas/get.py
index 01bee63..c19acce 100644
--- a/pm4py/statistics/rework/cases/pandas/get.py
+++ b/pm4py/statistics/rework/cases/pandas/get.py
@@ -57,6 +57,6 @@ def apply(df: pd.DataFrame, parameters: Optional[Dict[Union[str, Parameters], An
     grouped_df = df.groupby(case_id_key)[activity_key].agg(["count", "nunique"]).reset_index().to_dict("records")
     rework_cases = {}
     for el in grouped_df:
-        rework_cases[el["case:concept:name"]] = {"number_activities": el["count"], "rework": el["count"] - el["nunique"]}
+        rework_cases[el[case_id_key]] = {"number_activities": el["count"], "rework": el["count"] - el["nunique"]}
 
     return rework_cases
-- 
2.43.0


From 9176791b20f2aba899545ef732fbcbc7d493ea02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:21 +0000
Subject: [PATCH 079/104] fix: the start timestamp defaults to the given
 timestamp attribute

---
 pm4py/algo/conformance/temporal_profile/variants/log.py       | 3 +--
 pm4py/algo/discovery/batches/variants/log.py                  | 3 +--
 pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py     | 1 +
 pm4py/algo/discovery/dfg/variants/performance.py              | 3 +--
 pm4py/algo/discovery/temporal_profile/variants/log.py         | 3 +--
 .../log_to_interval_tree/variants/open_paths.py               | 3 +--
 pm4py/statistics/concurrent_activities/log/get.py             | 3 +--
 pm4py/statistics/eventually_follows/log/get.py                | 3 +--
 pm4py/statistics/service_time/log/get.py                      | 3 +--
 pm4py/statistics/service_time/pandas/get.py                   | 4 ++--
 10 files changed, 11 insertions(+), 18 deletions(-)

diff --git a/pm4py/algo/conformance/temporal_profile/variants/log.py b/pm4py/algo/conformance/temporal_profile/variants/log.py
index c10224c..284db41 100644
--- a/pm4py/algo/conformance/temporal_profile/variants/log.py
+++ b/pm4py/algo/conformance/temporal_profile/variants/log.py
@@ -89,8 +89,7 @@ def apply(log: EventLog, temporal_profile: typing.TemporalProfile,
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     zeta = exec_utils.get_param_value(Parameters.ZETA, parameters, 6.0)
 
     ret = []
diff --git a/pm4py/algo/discovery/batches/variants/log.py b/pm4py/algo/discovery/batches/variants/log.py
index 84bb801..d5ed97e 100644
--- a/pm4py/algo/discovery/batches/variants/log.py
+++ b/pm4py/algo/discovery/batches/variants/log.py
@@ -79,10 +79,9 @@ def apply(log: EventLog, parameters: Optional[Dict[Union[str, Parameters], Any]]
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
     resource_key = exec_utils.get_param_value(Parameters.RESOURCE_KEY, parameters, xes_constants.DEFAULT_RESOURCE_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     case_id_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, constants.CASE_CONCEPT_NAME)
 
     events = log_converter.apply(log, variant=log_converter.Variants.TO_EVENT_STREAM)
diff --git a/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py b/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
index 470e085..7a314b4 100644
--- a/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
+++ b/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
@@ -293,6 +293,7 @@ def get_concurrent_events_dataframe(df, start_timestamp_key=None, timestamp_key=
     # to avoid retro-compatibility problems
     if start_timestamp_key is None:
         start_timestamp_key = xes_constants.DEFAULT_START_TIMESTAMP_KEY
+        df = df.copy()
         df[start_timestamp_key] = df[timestamp_key]
 
     # to get rows belonging to same case ID together, we need to sort on case ID
diff --git a/pm4py/algo/discovery/dfg/variants/performance.py b/pm4py/algo/discovery/dfg/variants/performance.py
index c25981a..d38cc71 100644
--- a/pm4py/algo/discovery/dfg/variants/performance.py
+++ b/pm4py/algo/discovery/dfg/variants/performance.py
@@ -73,9 +73,8 @@ def performance(log: Union[EventLog, EventStream], parameters: Optional[Dict[Uni
         parameters = {}
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_util.DEFAULT_NAME_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_util.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_util.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     aggregation_measure = exec_utils.get_param_value(Parameters.AGGREGATION_MEASURE, parameters, "mean")
 
     business_hours = exec_utils.get_param_value(Parameters.BUSINESS_HOURS, parameters, False)
diff --git a/pm4py/algo/discovery/temporal_profile/variants/log.py b/pm4py/algo/discovery/temporal_profile/variants/log.py
index 4bf2524..f4bc824 100644
--- a/pm4py/algo/discovery/temporal_profile/variants/log.py
+++ b/pm4py/algo/discovery/temporal_profile/variants/log.py
@@ -79,8 +79,7 @@ def apply(log: EventLog, parameters: Optional[Dict[Any, Any]] = None) -> typing.
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
 
     diff_time_recordings = {}
 
diff --git a/pm4py/algo/transformation/log_to_interval_tree/variants/open_paths.py b/pm4py/algo/transformation/log_to_interval_tree/variants/open_paths.py
index 9a68843..0fb9988 100644
--- a/pm4py/algo/transformation/log_to_interval_tree/variants/open_paths.py
+++ b/pm4py/algo/transformation/log_to_interval_tree/variants/open_paths.py
@@ -64,10 +64,9 @@ def log_to_intervals(log: Union[EventLog, pd.DataFrame], parameters: Optional[Di
     log = log_converter.apply(log, variant=log_converter.Variants.TO_EVENT_LOG, parameters=parameters)
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     filter_activity_couple = exec_utils.get_param_value(Parameters.FILTER_ACTIVITY_COUPLE, parameters, None)
 
     ret_list = []
diff --git a/pm4py/statistics/concurrent_activities/log/get.py b/pm4py/statistics/concurrent_activities/log/get.py
index b1b2386..9f53c3b 100644
--- a/pm4py/statistics/concurrent_activities/log/get.py
+++ b/pm4py/statistics/concurrent_activities/log/get.py
@@ -60,8 +60,7 @@ def apply(interval_log: EventLog, parameters: Optional[Dict[Union[str, Parameter
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     strict = exec_utils.get_param_value(Parameters.STRICT, parameters, False)
 
     ret_dict = {}
diff --git a/pm4py/statistics/eventually_follows/log/get.py b/pm4py/statistics/eventually_follows/log/get.py
index 918738b..aa50283 100644
--- a/pm4py/statistics/eventually_follows/log/get.py
+++ b/pm4py/statistics/eventually_follows/log/get.py
@@ -39,8 +39,7 @@ def apply(interval_log: EventLog, parameters: Optional[Dict[Union[str, Parameter
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     keep_first_following = exec_utils.get_param_value(Parameters.KEEP_FIRST_FOLLOWING, parameters, False)
 
     ret_dict = {}
diff --git a/pm4py/statistics/service_time/log/get.py b/pm4py/statistics/service_time/log/get.py
index f3781a0..cbbe303 100644
--- a/pm4py/statistics/service_time/log/get.py
+++ b/pm4py/statistics/service_time/log/get.py
@@ -79,10 +79,9 @@ def apply(log: EventLog, parameters: Optional[Dict[Union[str, Parameters], Any]]
     log = log_converter.apply(log, variant=log_converter.Variants.TO_EVENT_LOG, parameters=parameters)
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     aggregation_measure = exec_utils.get_param_value(Parameters.AGGREGATION_MEASURE,
                                                      parameters, "mean")
 
diff --git a/pm4py/statistics/service_time/pandas/get.py b/pm4py/statistics/service_time/pandas/get.py
index 03ce48e..b467de6 100644
--- a/pm4py/statistics/service_time/pandas/get.py
+++ b/pm4py/statistics/service_time/pandas/get.py
@@ -75,13 +75,13 @@ def apply(dataframe: pd.DataFrame, parameters: Optional[Dict[Union[str, Paramete
     workcalendar = exec_utils.get_param_value(Parameters.WORKCALENDAR, parameters, constants.DEFAULT_BUSINESS_HOURS_WORKCALENDAR)
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     aggregation_measure = exec_utils.get_param_value(Parameters.AGGREGATION_MEASURE,
                                                      parameters, "mean")
 
+    dataframe = dataframe.copy()
     if business_hours:
         dataframe[DIFF_KEY] = dataframe.apply(
             lambda x: soj_time_business_hours_diff(x[start_timestamp_key], x[timestamp_key], business_hours_slots, workcalendar), axis=1)
-- 
2.43.0


From f95eda1d74b21472060d1b673a82cb2160eb710a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:09 +0000
Subject: [PATCH 080/104] fix: business hours must not bridge slots that are
 one second apart

---
 pm4py/util/business_hours.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/util/business_hours.py b/pm4py/util/business_hours.py
index 4048266..9de1a45 100644
--- a/pm4py/util/business_hours.py
+++ b/pm4py/util/business_hours.py
@@ -75,7 +75,7 @@ class BusinessHours:
         # union of business hour slots in order to avoid overlapping business hours
         self.business_hour_slots_unified = []
         for begin, end in sorted(self.business_hour_slots):
-            if self.business_hour_slots_unified and self.business_hour_slots_unified[-1][1] >= begin - 1:
+            if self.business_hour_slots_unified and self.business_hour_slots_unified[-1][1] >= begin:
                 self.business_hour_slots_unified[-1][1] = max(self.business_hour_slots_unified[-1][1], end)
             else:
                 self.business_hour_slots_unified.append([begin, end])
-- 
2.43.0


From 394938092fdaeaa9ee87a2f794e5e35edccf841e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:09 +0000
Subject: [PATCH 081/104] fix: business-hours performance graphs of logs
 without directly-follows pairs

---
 .../discovery/dfg/adapters/pandas/df_statistics.py     | 10 ++++++----
 .../network_analysis/variants/dataframe.py             |  6 +++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py b/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
index 7a314b4..a96ea95 100644
--- a/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
+++ b/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
@@ -123,8 +123,9 @@ def get_dfg_graph(df, measure="frequency", activity_key="concept:name", case_id_
         if business_hours:
             if business_hours_slot is None:
                 business_hours_slot = constants.DEFAULT_BUSINESS_HOUR_SLOTS
-            df_successive_rows[constants.DEFAULT_FLOW_TIME] = df_successive_rows.apply(
-            lambda x: soj_time_business_hours_diff(x[timestamp_key], x[start_timestamp_key + '_2'], business_hours_slot, workcalendar), axis=1)
+            df_successive_rows[constants.DEFAULT_FLOW_TIME] = [
+                soj_time_business_hours_diff(ct, st, business_hours_slot, workcalendar) for ct, st in
+                zip(df_successive_rows[timestamp_key], df_successive_rows[start_timestamp_key + '_2'])]
         else:
             difference = df_successive_rows[start_timestamp_key + '_2'] - df_successive_rows[timestamp_key]
             df_successive_rows[constants.DEFAULT_FLOW_TIME] = pandas_utils.get_total_seconds(difference)
@@ -243,8 +244,9 @@ def get_partial_order_dataframe(df, start_timestamp_key=None, timestamp_key="tim
     if business_hours:
         if business_hours_slot is None:
             business_hours_slot = constants.DEFAULT_BUSINESS_HOUR_SLOTS
-        df[constants.DEFAULT_FLOW_TIME] = df.apply(
-            lambda x: soj_time_business_hours_diff(x[timestamp_key], x[start_timestamp_key + '_2'], business_hours_slot, workcalendar), axis=1)
+        df[constants.DEFAULT_FLOW_TIME] = [
+            soj_time_business_hours_diff(ct, st, business_hours_slot, workcalendar) for ct, st in
+            zip(df[timestamp_key], df[start_timestamp_key + '_2'])]
     else:
         df[constants.DEFAULT_FLOW_TIME] = pandas_utils.get_total_seconds(df[start_timestamp_key + "_2"] - df[timestamp_key])
 
diff --git a/pm4py/algo/organizational_mining/network_analysis/variants/dataframe.py b/pm4py/algo/organizational_mining/network_analysis/variants/dataframe.py
index e94bf7f..245db02 100644
--- a/pm4py/algo/organizational_mining/network_analysis/variants/dataframe.py
+++ b/pm4py/algo/organizational_mining/network_analysis/variants/dataframe.py
@@ -94,9 +94,9 @@ Dict[Tuple[str, str], Dict[str, Any]]:
     edges = {}
 
     if business_hours:
-        merged_df[timestamp_diff_column] = merged_df.apply(
-            lambda x: soj_time_business_hours_diff(x[timestamp_column + "_out"], x[timestamp_column + "_in"],
-                                                   business_hours_slots), axis=1)
+        merged_df[timestamp_diff_column] = [
+            soj_time_business_hours_diff(out, inp, business_hours_slots) for out, inp in
+            zip(merged_df[timestamp_column + "_out"], merged_df[timestamp_column + "_in"])]
 
     else:
         merged_df[timestamp_diff_column] = pandas_utils.get_total_seconds(merged_df[timestamp_column + "_in"] - merged_df[timestamp_column + "_out"])
-- 
2.43.0


From 2e2987047ac8168f8e6dcc50144964308be63009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:49 +0000
Subject: [PATCH 082/104] fix: write_ocel2 writes files with the .json
 extension

---
 pm4py/write.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/write.py b/pm4py/write.py
index 918d2ed..01c5ded 100644
--- a/pm4py/write.py
+++ b/pm4py/write.py
@@ -311,7 +311,7 @@ def write_ocel2(ocel: OCEL, file_path: str, encoding: str = constants.DEFAULT_EN
         return write_ocel2_sqlite(ocel, file_path, encoding=encoding)
     elif file_path.lower().endswith("xml") or file_path.lower().endswith("xmlocel"):
         return write_ocel2_xml(ocel, file_path, encoding=encoding)
-    elif file_path.lower().endswith("jsonocel"):
+    elif file_path.lower().endswith("json") or file_path.lower().endswith("jsonocel"):
         return write_ocel2_json(ocel, file_path, encoding=encoding)
 
 
-- 
2.43.0


From 12e79416a63f1eb50b51a7d5b060a90ab79e1fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:49 +0000
Subject: [PATCH 083/104] fix: missing qualifiers in the OCEL 2.0 XML exporter

---
 .../objects/ocel/exporter/xmlocel/variants/ocel20.py  | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pm4py/objects/ocel/exporter/xmlocel/variants/ocel20.py b/pm4py/objects/ocel/exporter/xmlocel/variants/ocel20.py
index dda1b26..8ffa5fa 100644
--- a/pm4py/objects/ocel/exporter/xmlocel/variants/ocel20.py
+++ b/pm4py/objects/ocel/exporter/xmlocel/variants/ocel20.py
@@ -41,6 +41,13 @@ class Parameters(Enum):
 RELOBJ_TAG = "relationship"
 
 
+def get_qualifier(qualifier) -> str:
+    """
+    Gets the string to write for a qualifier (empty, when no qualifier is set)
+    """
+    return str(qualifier) if pd.notnull(qualifier) else ""
+
+
 def apply(ocel: OCEL, target_path: str, parameters: Optional[Dict[Any, Any]] = None):
     if parameters is None:
         parameters = {}
@@ -155,7 +162,7 @@ def apply(ocel: OCEL, target_path: str, parameters: Optional[Dict[Any, Any]] = N
             for i in range(len(o2o_dict[objid][0])):
                 object_object = etree.SubElement(object_objects, RELOBJ_TAG)
                 object_object.set("object-id", o2o_dict[objid][0][i])
-                object_object.set("qualifier", o2o_dict[objid][1][i])
+                object_object.set("qualifier", get_qualifier(o2o_dict[objid][1][i]))
 
     events = etree.SubElement(root, "events")
     for evid, eve in events0.items():
@@ -171,7 +178,7 @@ def apply(ocel: OCEL, target_path: str, parameters: Optional[Dict[Any, Any]] = N
             for i in range(len(this_ids)):
                 event_object = etree.SubElement(event_objects, RELOBJ_TAG)
                 event_object.set("object-id", str(this_ids[i]))
-                event_object.set("qualifier", str(this_qualifiers[i]))
+                event_object.set("qualifier", get_qualifier(this_qualifiers[i]))
         eve = {x: y for x, y in eve.items() if not x.startswith("ocel:") and y is not None and not pd.isna(y)}
         if len(eve) > 0:
             for k, v in eve.items():
-- 
2.43.0


From 1f97eb83dd275afd804a9cddfa5fd7a0fdf42c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:50 +0000
Subject: [PATCH 084/104] fix: OCEL 2.0 SQLite: logs without object changes and
 clashing table names

---
 .../ocel/exporter/sqlite/variants/ocel20.py   | 34 ++++++++++++++-----
 .../ocel/importer/sqlite/variants/ocel20.py   |  3 +-
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/pm4py/objects/ocel/exporter/sqlite/variants/ocel20.py b/pm4py/objects/ocel/exporter/sqlite/variants/ocel20.py
index 79a91a8..ef820f8 100644
--- a/pm4py/objects/ocel/exporter/sqlite/variants/ocel20.py
+++ b/pm4py/objects/ocel/exporter/sqlite/variants/ocel20.py
@@ -15,7 +15,7 @@
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
 from pm4py.objects.ocel.obj import OCEL
-from typing import Optional, Dict, Any
+from typing import Optional, Dict, Any, List
 import os
 import pandas as pd
 from datetime import datetime
@@ -29,6 +29,25 @@ class Parameters(Enum):
     ENABLE_NAMES_STRIPPING = "enable_names_stripping"
 
 
+def get_table_names(types: List[str], enable_names_stripping: bool) -> Dict[str, str]:
+    """
+    Associates every event (object) type to the distinct name (suffix) of its table.
+    The names of the tables are case-insensitive, and must not clash with the other tables of the database.
+    """
+    used = {"object", "map_type"}
+    ret = {}
+    for typ in types:
+        base_name = names_stripping.apply(typ) if enable_names_stripping else typ
+        name = base_name
+        i = 1
+        while name.lower() in used:
+            i = i + 1
+            name = base_name + "_" + str(i)
+        used.add(name.lower())
+        ret[typ] = name
+    return ret
+
+
 def apply(ocel: OCEL, file_path: str, parameters: Optional[Dict[Any, Any]] = None):
     if parameters is None:
         parameters = {}
@@ -63,12 +82,11 @@ def apply(ocel: OCEL, file_path: str, parameters: Optional[Dict[Any, Any]] = Non
     event_types = sorted(pandas_utils.format_unique(EVENTS["ocel_type"].unique()))
     object_types = sorted(pandas_utils.format_unique(OBJECTS["ocel_type"].unique()))
 
-    EVENT_CORR_TYPE = pandas_utils.instantiate_dataframe({"ocel_type": event_types, "ocel_type_map": event_types})
-    OBJECT_CORR_TYPE = pandas_utils.instantiate_dataframe({"ocel_type": object_types, "ocel_type_map": object_types})
+    event_types_map = get_table_names(event_types, enable_names_stripping)
+    object_types_map = get_table_names(object_types, enable_names_stripping)
 
-    if enable_names_stripping:
-        EVENT_CORR_TYPE["ocel_type_map"] = EVENT_CORR_TYPE["ocel_type_map"].apply(lambda x: names_stripping.apply(x))
-        OBJECT_CORR_TYPE["ocel_type_map"] = OBJECT_CORR_TYPE["ocel_type_map"].apply(lambda x: names_stripping.apply(x))
+    EVENT_CORR_TYPE = pandas_utils.instantiate_dataframe({"ocel_type": event_types, "ocel_type_map": [event_types_map[x] for x in event_types]})
+    OBJECT_CORR_TYPE = pandas_utils.instantiate_dataframe({"ocel_type": object_types, "ocel_type_map": [object_types_map[x] for x in object_types]})
 
     EVENT_CORR_TYPE.to_sql("event_map_type", conn, index=False)
     OBJECT_CORR_TYPE.to_sql("object_map_type", conn, index=False)
@@ -88,7 +106,7 @@ def apply(ocel: OCEL, file_path: str, parameters: Optional[Dict[Any, Any]] = Non
         df = df.rename(columns={event_id: "ocel_id", event_timestamp: "ocel_time"})
         df["ocel_id"] = df["ocel_id"].astype("string")
 
-        act_red = names_stripping.apply(act) if enable_names_stripping else act
+        act_red = event_types_map[act]
 
         df = df.drop_duplicates()
         df.to_sql("event_"+act_red, conn, index=False)
@@ -106,7 +124,7 @@ def apply(ocel: OCEL, file_path: str, parameters: Optional[Dict[Any, Any]] = Non
 
         df["ocel_id"] = df["ocel_id"].astype("string")
 
-        ot_red = names_stripping.apply(ot) if enable_names_stripping else ot
+        ot_red = object_types_map[ot]
 
         df.to_sql("object_"+ot_red, conn, index=False)
 
diff --git a/pm4py/objects/ocel/importer/sqlite/variants/ocel20.py b/pm4py/objects/ocel/importer/sqlite/variants/ocel20.py
index ad84a3a..d819202 100644
--- a/pm4py/objects/ocel/importer/sqlite/variants/ocel20.py
+++ b/pm4py/objects/ocel/importer/sqlite/variants/ocel20.py
@@ -132,7 +132,8 @@ def apply(file_path: str, parameters: Optional[Dict[Any, Any]] = None):
         objects = object_types_coll
         object_changes = None
 
-    del objects[event_timestamp]
+    if event_timestamp in objects:
+        del objects[event_timestamp]
     del objects[cumcount_field]
 
     E2O = pd.read_sql("SELECT * FROM event_object", conn)
-- 
2.43.0


From 7a8c373769b96c04878f6571d34b91c15ea9a9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:50 +0000
Subject: [PATCH 085/104] fix: time stamps and boolean values in the JSON-OCEL
 and XML-OCEL exporters

---
 .../ocel/exporter/jsonocel/variants/ocel20.py |  7 ++++-
 .../ocel/exporter/util/clean_dataframes.py    | 26 +++++++++++++------
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/pm4py/objects/ocel/exporter/jsonocel/variants/ocel20.py b/pm4py/objects/ocel/exporter/jsonocel/variants/ocel20.py
index 697bdc0..63ecc7b 100644
--- a/pm4py/objects/ocel/exporter/jsonocel/variants/ocel20.py
+++ b/pm4py/objects/ocel/exporter/jsonocel/variants/ocel20.py
@@ -15,9 +15,12 @@
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
 import json
+from datetime import datetime
 from enum import Enum
 from typing import Optional, Dict, Any
 
+import pandas as pd
+
 from pm4py.objects.ocel import constants
 from pm4py.objects.ocel.obj import OCEL
 from pm4py.util import exec_utils, constants as pm4_constants
@@ -76,7 +79,9 @@ def get_enriched_object(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None)
     if len(ocel.object_changes) > 0:
         object_changes = ocel.object_changes.to_dict("records")
         for i in range(len(object_changes)):
-            object_changes[i][event_timestamp] = object_changes[i][event_timestamp].isoformat()
+            for k, v in object_changes[i].items():
+                if isinstance(v, datetime):
+                    object_changes[i][k] = v.isoformat() if pd.notnull(v) else None
 
         base_object[constants.OCEL_OBJCHANGES_KEY] = object_changes
 
diff --git a/pm4py/objects/ocel/exporter/util/clean_dataframes.py b/pm4py/objects/ocel/exporter/util/clean_dataframes.py
index 6365dd5..2857930 100644
--- a/pm4py/objects/ocel/exporter/util/clean_dataframes.py
+++ b/pm4py/objects/ocel/exporter/util/clean_dataframes.py
@@ -21,6 +21,22 @@ import pandas as pd
 from pm4py.objects.ocel.obj import OCEL
 
 
+def clean_column(column: pd.Series) -> pd.Series:
+    """
+    Transforms the values of a column to a representation which can be written to a file
+    (the dates to an UTC ISO string, including the fraction of the second when there is one)
+    """
+    if str(column.dtype) == "object":
+        if pd.api.types.infer_dtype(column, skipna=True) != "boolean":
+            column = column.astype('string')
+    elif "date" in str(column.dtype):
+        if column.dt.tz is not None:
+            column = column.dt.tz_convert("UTC")
+        has_fraction = (column.dropna() != column.dropna().dt.floor("s")).any()
+        column = column.dt.strftime('%Y-%m-%dT%H:%M:%S.%fZ' if has_fraction else '%Y-%m-%dT%H:%M:%SZ')
+    return column
+
+
 def get_dataframes_from_ocel(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> Tuple[
     pd.DataFrame, pd.DataFrame]:
     if parameters is None:
@@ -28,16 +44,10 @@ def get_dataframes_from_ocel(ocel: OCEL, parameters: Optional[Dict[Any, Any]] =
 
     events = ocel.events.copy()
     for col in events.columns:
-        if str(events[col].dtype) == "object":
-            events[col] = events[col].astype('string')
-        elif "date" in str(events[col].dtype):
-            events[col] = events[col].dt.strftime('%Y-%m-%dT%H:%M:%SZ')
+        events[col] = clean_column(events[col])
 
     objects = ocel.objects.copy()
     for col in objects.columns:
-        if str(objects[col].dtype) == "object":
-            objects[col] = objects[col].astype('string')
-        elif "date" in str(objects[col].dtype):
-            objects[col] = objects[col].dt.strftime('%Y-%m-%dT%H:%M:%SZ')
+        objects[col] = clean_column(objects[col])
 
     return events, objects
-- 
2.43.0


From 39968e94c163466e3e58990e70d29a404f3a0cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:50 +0000
Subject: [PATCH 086/104] fix: object changes and multiple qualifiers in the
 JSON OCEL 2.0 format

---
 .../ocel/exporter/jsonocel/variants/ocel20_standard.py   | 2 +-
 pm4py/objects/ocel/importer/jsonocel/variants/classic.py | 9 ++++++++-
 .../ocel/importer/jsonocel/variants/ocel20_standard.py   | 5 ++++-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/pm4py/objects/ocel/exporter/jsonocel/variants/ocel20_standard.py b/pm4py/objects/ocel/exporter/jsonocel/variants/ocel20_standard.py
index 8849068..3e5c1e6 100644
--- a/pm4py/objects/ocel/exporter/jsonocel/variants/ocel20_standard.py
+++ b/pm4py/objects/ocel/exporter/jsonocel/variants/ocel20_standard.py
@@ -98,7 +98,7 @@ def apply(ocel: OCEL, target_path: str, parameters: Optional[Dict[Any, Any]] = N
         oid = change["ocel:oid"]
         obj = json_object["objects"][obj_idx[oid]]
 
-        obj["attributes"].append(
+        obj.setdefault("attributes", []).append(
             {"name": change["ocel:field"], "time": change["ocel:timestamp"], "value": change[change["ocel:field"]]})
 
         json_object["objects"][obj_idx[oid]] = obj
diff --git a/pm4py/objects/ocel/importer/jsonocel/variants/classic.py b/pm4py/objects/ocel/importer/jsonocel/variants/classic.py
index bc33981..69148a1 100644
--- a/pm4py/objects/ocel/importer/jsonocel/variants/classic.py
+++ b/pm4py/objects/ocel/importer/jsonocel/variants/classic.py
@@ -78,6 +78,7 @@ def get_base_ocel(json_obj: Any, parameters: Optional[Dict[Any, Any]] = None):
         for k, v in ev[constants.OCEL_VMAP_KEY].items():
             dct[k] = v
         this_rel = {}
+        other_rel = []
         for obj in ev[constants.OCEL_OMAP_KEY]:
             if obj in types_dict:
                 this_rel[obj] = {event_id: ev_id, event_activity: ev[event_activity],
@@ -88,9 +89,15 @@ def get_base_ocel(json_obj: Any, parameters: Optional[Dict[Any, Any]] = None):
                 if object_id in element:
                     key1 = element[object_id]
                     if key1 in this_rel:
-                        this_rel[key1][constants.DEFAULT_QUALIFIER] = element[constants.DEFAULT_QUALIFIER]
+                        rel = this_rel[key1]
+                        if constants.DEFAULT_QUALIFIER in rel:
+                            # the object is related to the event by more than one qualifier
+                            rel = dict(rel)
+                            other_rel.append(rel)
+                        rel[constants.DEFAULT_QUALIFIER] = element[constants.DEFAULT_QUALIFIER]
         for obj in this_rel:
             relations.append(this_rel[obj])
+        relations.extend(other_rel)
         events.append(dct)
 
     if constants.OCEL_OBJCHANGES_KEY in json_obj:
diff --git a/pm4py/objects/ocel/importer/jsonocel/variants/ocel20_standard.py b/pm4py/objects/ocel/importer/jsonocel/variants/ocel20_standard.py
index cd705b2..046e639 100644
--- a/pm4py/objects/ocel/importer/jsonocel/variants/ocel20_standard.py
+++ b/pm4py/objects/ocel/importer/jsonocel/variants/ocel20_standard.py
@@ -79,7 +79,10 @@ def apply(file_path: str, parameters: Optional[Dict[Any, Any]] = None) -> OCEL:
         dct["ocel:ovmap"] = {}
         if "attributes" in obj and obj["attributes"]:
             for x in obj["attributes"]:
-                if x["name"] in dct["ocel:ovmap"]:
+                # the values set at the epoch are the initial ones, the other values are changes
+                time = str(x.get("time", "0"))
+                is_initial = time == "0" or time.startswith("1970-01-01T00:00:00")
+                if x["name"] in dct["ocel:ovmap"] or not is_initial:
                     legacy_obj["ocel:objectChanges"].append({"ocel:oid": obj["id"], "ocel:type": obj["type"], "ocel:field": x["name"], x["name"]: x["value"], "ocel:timestamp": x["time"]})
                 else:
                     dct["ocel:ovmap"][x["name"]] = x["value"]
-- 
2.43.0


From 1d667258bda09a9c472c3b6fd7487063b1487855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:04 +0000
Subject: [PATCH 087/104] fix: OCEL filters on connected components, counts and
 expanded object sets

---
 pm4py/algo/filtering/ocel/objects_ot_count.py |  8 +++-----
 pm4py/filtering.py                            | 18 ++++++++++++------
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/pm4py/algo/filtering/ocel/objects_ot_count.py b/pm4py/algo/filtering/ocel/objects_ot_count.py
index 8ac2854..3eaf423 100644
--- a/pm4py/algo/filtering/ocel/objects_ot_count.py
+++ b/pm4py/algo/filtering/ocel/objects_ot_count.py
@@ -73,13 +73,11 @@ def apply(ocel: OCEL, min_num_obj_type: Dict[str, int], parameters: Optional[Dic
 
     filt_evs = set()
 
-    for evid, evobjs in num_obj.items():
+    for evid in ocel.events[event_id].to_numpy().tolist():
+        evobjs = num_obj.get(evid, {})
         is_ok = True
         for k, v in min_num_obj_type.items():
-            if not k in evobjs:
-                is_ok = False
-                break
-            elif evobjs[k] < v:
+            if evobjs.get(k, 0) < v:
                 is_ok = False
                 break
         if is_ok:
diff --git a/pm4py/filtering.py b/pm4py/filtering.py
index 7b49ce3..9a8b6be 100644
--- a/pm4py/filtering.py
+++ b/pm4py/filtering.py
@@ -1082,7 +1082,7 @@ def filter_ocel_objects(ocel: OCEL, object_identifiers: Collection[str], positiv
         while level > 1:
             curr = list(object_identifiers)
             for el in curr:
-                for el2 in graph[el]:
+                for el2 in graph.get(el, ()):
                     object_identifiers.add(el2)
             level = level - 1
     from copy import copy
@@ -1191,6 +1191,9 @@ def filter_ocel_cc_length(ocel: OCEL, min_cc_length: int, max_cc_length: int) ->
     for edge in g0:
         g.add_edge(edge[0], edge[1])
 
+    # the objects which do not interact with others are components on their own
+    g.add_nodes_from(ocel.objects[ocel.object_id_column].to_numpy().tolist())
+
     conn_comp = list(nx_utils.connected_components(g))
     conn_comp = [x for x in conn_comp if min_cc_length <= len(x) <= max_cc_length]
     objs = [y for x in conn_comp for y in x]
@@ -1218,10 +1221,7 @@ def filter_ocel_cc_otype(ocel: OCEL, otype: str, positive: bool = True) -> OCEL:
         ocel = pm4py.read_ocel('log.jsonocel')
         filtered_ocel = pm4py.filter_ocel_cc_otype(ocel, 'order')
     """
-    if positive:
-        objs = set(ocel.objects[ocel.objects[ocel.object_type_column] == otype][ocel.object_id_column])
-    else:
-        objs = set(ocel.objects[~(ocel.objects[ocel.object_type_column] == otype)][ocel.object_id_column])
+    objs = set(ocel.objects[ocel.objects[ocel.object_type_column] == otype][ocel.object_id_column])
 
     from pm4py.algo.transformation.ocel.graphs import object_interaction_graph
 
@@ -1231,8 +1231,11 @@ def filter_ocel_cc_otype(ocel: OCEL, otype: str, positive: bool = True) -> OCEL:
     for edge in g0:
         g.add_edge(edge[0], edge[1])
 
+    # the objects which do not interact with others are components on their own
+    g.add_nodes_from(ocel.objects[ocel.object_id_column].to_numpy().tolist())
+
     conn_comp = list(nx_utils.connected_components(g))
-    conn_comp = [x for x in conn_comp if len(set(x).intersection(objs)) > 0]
+    conn_comp = [x for x in conn_comp if (len(set(x).intersection(objs)) > 0) == positive]
 
     objs = [y for x in conn_comp for y in x]
 
@@ -1269,6 +1272,9 @@ def filter_ocel_cc_activity(ocel: OCEL, activity: str) -> OCEL:
     for edge in g0:
         g.add_edge(edge[0], edge[1])
 
+    # the objects which do not interact with others are components on their own
+    g.add_nodes_from(ocel.objects[ocel.object_id_column].to_numpy().tolist())
+
     conn_comp = list(nx_utils.connected_components(g))
     conn_comp = [x for x in conn_comp if len(set(x).intersection(objs)) > 0]
 
-- 
2.43.0


From 5424f19e0450ec0a88a71b74485a20c0e00d0f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:04 +0000
Subject: [PATCH 088/104] fix: splitting and sampling of connected components
 keep the whole sub-log

---
 .../variants/connected_components.py           | 11 +++++++----
 pm4py/ocel.py                                  | 18 ++++--------------
 2 files changed, 11 insertions(+), 18 deletions(-)

diff --git a/pm4py/algo/transformation/ocel/split_ocel/variants/connected_components.py b/pm4py/algo/transformation/ocel/split_ocel/variants/connected_components.py
index 22ac53b..fac4aca 100644
--- a/pm4py/algo/transformation/ocel/split_ocel/variants/connected_components.py
+++ b/pm4py/algo/transformation/ocel/split_ocel/variants/connected_components.py
@@ -14,7 +14,9 @@
     You should have received a copy of the GNU General Public License
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
+from copy import copy
 from pm4py.objects.ocel.obj import OCEL
+from pm4py.objects.ocel.util import filtering_utils
 from typing import Optional, Dict, Any
 from pm4py.algo.transformation.ocel.graphs import object_interaction_graph
 from pm4py.util import exec_utils, pandas_utils, nx_utils
@@ -61,6 +63,9 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None):
     for edge in g0:
         g.add_edge(edge[0], edge[1])
 
+    # the objects which do not interact with others are components on their own
+    g.add_nodes_from(pandas_utils.format_unique(ocel.relations[ocel.object_id_column].unique()))
+
     removed_nodes = set()
 
     if centrality_measure is not None:
@@ -80,11 +85,9 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None):
     ret = []
 
     for index, cc in enumerate(conn_comp):
-        subocel = OCEL()
+        subocel = copy(ocel)
         subocel.objects = ocel.objects[ocel.objects[ocel.object_id_column].isin(cc)]
-        subocel.relations = ocel.relations[ocel.relations[ocel.object_id_column].isin(cc)]
-        included_evs = pandas_utils.format_unique(subocel.relations[ocel.event_id_column].unique())
-        subocel.events = ocel.events[ocel.events[ocel.event_id_column].isin(included_evs)]
+        subocel = filtering_utils.propagate_object_filtering(subocel)
 
         ret.append(subocel)
 
diff --git a/pm4py/ocel.py b/pm4py/ocel.py
index d59103b..8e50784 100644
--- a/pm4py/ocel.py
+++ b/pm4py/ocel.py
@@ -391,9 +391,6 @@ def sample_ocel_connected_components(ocel: OCEL, connected_components: int = 1,
     """
     from pm4py.algo.transformation.ocel.split_ocel import algorithm
     ocel_splits = algorithm.apply(ocel, variant=algorithm.Variants.CONNECTED_COMPONENTS)
-    events = None
-    objects = None
-    relations = None
     ocel_splits = [x for x in ocel_splits if
                    len(x.events) <= max_num_events_per_cc and len(x.objects) <= max_num_objects_per_cc and len(
                        x.relations) <= max_num_e2o_relations_per_cc]
@@ -401,17 +398,10 @@ def sample_ocel_connected_components(ocel: OCEL, connected_components: int = 1,
     if len(ocel_splits) > 0:
         ocel_splits = random.sample(ocel_splits, min(connected_components, len(ocel_splits)))
 
-    for cc in ocel_splits:
-        if events is None:
-            events = cc.events
-            objects = cc.objects
-            relations = cc.relations
-        else:
-            events = pandas_utils.concat([events, cc.events])
-            objects = pandas_utils.concat([objects, cc.objects])
-            relations = pandas_utils.concat([relations, cc.relations])
-
-    return OCEL(events, objects, relations)
+    object_ids = [y for cc in ocel_splits for y in cc.objects[cc.object_id_column]]
+
+    from pm4py.filtering import filter_ocel_objects
+    return filter_ocel_objects(ocel, object_ids)
 
 
 def ocel_drop_duplicates(ocel: OCEL) -> OCEL:
-- 
2.43.0


From d5dafb5a13f7b3fc4823cc4bad74444d3256c8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:38 +0000
Subject: [PATCH 089/104] fix: object graphs: tolerate events without objects;
 inheritance links from the inheritance graph

---
 pm4py/algo/transformation/ocel/graphs/object_cobirth_graph.py | 2 +-
 pm4py/algo/transformation/ocel/graphs/object_codeath_graph.py | 2 +-
 .../transformation/ocel/graphs/object_descendants_graph.py    | 2 +-
 .../transformation/ocel/graphs/object_inheritance_graph.py    | 4 ++--
 pm4py/algo/transformation/ocel/graphs/ocel20_computation.py   | 4 ++--
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pm4py/algo/transformation/ocel/graphs/object_cobirth_graph.py b/pm4py/algo/transformation/ocel/graphs/object_cobirth_graph.py
index 919be94..e7389c1 100644
--- a/pm4py/algo/transformation/ocel/graphs/object_cobirth_graph.py
+++ b/pm4py/algo/transformation/ocel/graphs/object_cobirth_graph.py
@@ -49,7 +49,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> Set[Tuple[
     set_objects = set()
 
     for ev in ordered_events:
-        rel_obj = ev_rel_obj[ev]
+        rel_obj = ev_rel_obj.get(ev, [])
         rel_obj_seen = {x for x in rel_obj if x in set_objects}
         rel_obj_unseen = {x for x in rel_obj if x not in rel_obj_seen}
 
diff --git a/pm4py/algo/transformation/ocel/graphs/object_codeath_graph.py b/pm4py/algo/transformation/ocel/graphs/object_codeath_graph.py
index 198b257..b61b80f 100644
--- a/pm4py/algo/transformation/ocel/graphs/object_codeath_graph.py
+++ b/pm4py/algo/transformation/ocel/graphs/object_codeath_graph.py
@@ -49,7 +49,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> Set[Tuple[
     ordered_events.reverse()
 
     for ev in ordered_events:
-        rel_obj = ev_rel_obj[ev]
+        rel_obj = ev_rel_obj.get(ev, [])
         rel_obj_seen = {x for x in rel_obj if x in set_objects}
         rel_obj_unseen = {x for x in rel_obj if x not in rel_obj_seen}
 
diff --git a/pm4py/algo/transformation/ocel/graphs/object_descendants_graph.py b/pm4py/algo/transformation/ocel/graphs/object_descendants_graph.py
index 5a79ce0..cf38ec3 100644
--- a/pm4py/algo/transformation/ocel/graphs/object_descendants_graph.py
+++ b/pm4py/algo/transformation/ocel/graphs/object_descendants_graph.py
@@ -49,7 +49,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> Set[Tuple[
     set_objects = set()
 
     for ev in ordered_events:
-        rel_obj = ev_rel_obj[ev]
+        rel_obj = ev_rel_obj.get(ev, [])
         rel_obj_seen = {x for x in rel_obj if x in set_objects}
         rel_obj_unseen = {x for x in rel_obj if x not in rel_obj_seen}
         if rel_obj_seen and rel_obj_unseen:
diff --git a/pm4py/algo/transformation/ocel/graphs/object_inheritance_graph.py b/pm4py/algo/transformation/ocel/graphs/object_inheritance_graph.py
index 08bab77..8c87c32 100644
--- a/pm4py/algo/transformation/ocel/graphs/object_inheritance_graph.py
+++ b/pm4py/algo/transformation/ocel/graphs/object_inheritance_graph.py
@@ -52,7 +52,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> Set[Tuple[
     ordered_events_revert.reverse()
 
     for ev in ordered_events_revert:
-        rel_obj = ev_rel_obj[ev]
+        rel_obj = ev_rel_obj.get(ev, [])
         rel_obj_seen = {x for x in rel_obj if x in set_objects}
         rel_obj_unseen = {x for x in rel_obj if x not in rel_obj_seen}
 
@@ -63,7 +63,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> Set[Tuple[
     set_objects = set()
 
     for ev in ordered_events:
-        rel_obj = ev_rel_obj[ev]
+        rel_obj = ev_rel_obj.get(ev, [])
         rel_obj_seen = {x for x in rel_obj if x in set_objects}
         rel_obj_unseen = {x for x in rel_obj if x not in rel_obj_seen}
         rel_obj_last = {x for x in rel_obj if last_event_per_obj[x] == ev}
diff --git a/pm4py/algo/transformation/ocel/graphs/ocel20_computation.py b/pm4py/algo/transformation/ocel/graphs/ocel20_computation.py
index b5ac28a..7b24950 100644
--- a/pm4py/algo/transformation/ocel/graphs/ocel20_computation.py
+++ b/pm4py/algo/transformation/ocel/graphs/ocel20_computation.py
@@ -17,7 +17,7 @@
 
 from enum import Enum
 from pm4py.util import exec_utils, pandas_utils
-from pm4py.algo.transformation.ocel.graphs import object_interaction_graph, object_descendants_graph, object_cobirth_graph, object_codeath_graph
+from pm4py.algo.transformation.ocel.graphs import object_interaction_graph, object_descendants_graph, object_inheritance_graph, object_cobirth_graph, object_codeath_graph
 from pm4py.objects.ocel.obj import OCEL
 from typing import Optional, Dict, Any
 from copy import copy
@@ -66,7 +66,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> OCEL:
         for el in graph:
             o2o.add((el[0], el[1], "object_descendants_graph"))
     if "object_inheritance_graph" in included_graphs:
-        graph = object_descendants_graph.apply(ocel, parameters=parameters)
+        graph = object_inheritance_graph.apply(ocel, parameters=parameters)
         for el in graph:
             o2o.add((el[0], el[1], "object_inheritance_graph"))
     if "object_cobirth_graph" in included_graphs:
-- 
2.43.0


From cc6c7a2e8d97ec8816b944d339807c520599da5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:38 +0000
Subject: [PATCH 090/104] fix: interleavings: keep the index of the events and
 survive long differences

---
 .../ocel/interleavings/utils/merge_dataframe_rel_cases.py  | 7 +++++++
 .../ocel/interleavings/variants/timestamp_interleavings.py | 4 +++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/ocel/interleavings/utils/merge_dataframe_rel_cases.py b/pm4py/algo/discovery/ocel/interleavings/utils/merge_dataframe_rel_cases.py
index c08e20a..c07cadd 100644
--- a/pm4py/algo/discovery/ocel/interleavings/utils/merge_dataframe_rel_cases.py
+++ b/pm4py/algo/discovery/ocel/interleavings/utils/merge_dataframe_rel_cases.py
@@ -51,8 +51,15 @@ def directly_follows_dataframe(dataframe: pd.DataFrame, parameters: Optional[Dic
 
     insert_parameters = copy(parameters)
     insert_parameters["use_extremes_timestamp"] = True
+    # use a separate sorting index, so that the index of the original events is kept
+    # (the artificial start/end events get -1)
+    artificial_index_key = index_key + "_artificial"
+    insert_parameters[Parameters.INDEX_KEY] = artificial_index_key
+    insert_parameters[Parameters.INDEX_KEY.value] = artificial_index_key
 
     dataframe = dataframe_utils.insert_artificial_start_end(dataframe, parameters=insert_parameters)
+    del dataframe[artificial_index_key]
+    dataframe[index_key] = dataframe[index_key].fillna(-1).astype(int)
 
     df_shifted = dataframe.shift(-1)
     df_shifted.columns = [x+"_2" for x in df_shifted.columns]
diff --git a/pm4py/algo/discovery/ocel/interleavings/variants/timestamp_interleavings.py b/pm4py/algo/discovery/ocel/interleavings/variants/timestamp_interleavings.py
index eba53bc..5e1bce3 100644
--- a/pm4py/algo/discovery/ocel/interleavings/variants/timestamp_interleavings.py
+++ b/pm4py/algo/discovery/ocel/interleavings/variants/timestamp_interleavings.py
@@ -116,6 +116,8 @@ def apply(left_df: pd.DataFrame, right_df: pd.DataFrame, case_relations: pd.Data
 
     md = pandas_utils.concat([df1, df2])
     md = md.sort_values([index_key+left_suffix, index_key+right_suffix])
-    md[timestamp_diff] = pandas_utils.get_total_seconds(md[target_timestamp] - md[source_timestamp])
+    # the difference to the artificial start/end events may exceed the range of the Pandas timedeltas
+    md[timestamp_diff] = [(t.to_pydatetime(warn=False) - s.to_pydatetime(warn=False)).total_seconds()
+                          for s, t in zip(md[source_timestamp], md[target_timestamp])]
 
     return md
-- 
2.43.0


From 09a99a88c0024aa250f0cac38ce35c1db9cb42db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:38 +0000
Subject: [PATCH 091/104] fix: log to OCEL conversions: sets as indexers,
 repeated activity and timestamp columns

---
 pm4py/objects/ocel/util/log_ocel.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pm4py/objects/ocel/util/log_ocel.py b/pm4py/objects/ocel/util/log_ocel.py
index 9006bf8..48f85ad 100644
--- a/pm4py/objects/ocel/util/log_ocel.py
+++ b/pm4py/objects/ocel/util/log_ocel.py
@@ -120,7 +120,7 @@ def from_traditional_log(log: EventLog, parameters: Optional[Dict[Any, Any]] = N
             eve = {ocel_constants.DEFAULT_EVENT_ID: str(ev_count), ocel_constants.DEFAULT_EVENT_ACTIVITY: activity,
                    ocel_constants.DEFAULT_EVENT_TIMESTAMP: timestamp}
             for attr in ev:
-                if attr not in [activity, timestamp]:
+                if attr not in [activity_key, timestamp_key]:
                     eve[attr] = ev[attr]
             events.append(eve)
             relations.append(
@@ -140,7 +140,7 @@ def __get_events_dataframe(df: pd.DataFrame, activity_key: str, timestamp_key: s
     """
     Internal method to get the events dataframe out of a traditional log stored as Pandas dataframe
     """
-    columns = {case_id_key}.union(set(x for x in df.columns if not x.startswith(case_attribute_prefix)))
+    columns = [x for x in df.columns if x == case_id_key or not x.startswith(case_attribute_prefix)]
     df = df[columns]
     df = df.rename(columns={activity_key: ocel_constants.DEFAULT_EVENT_ACTIVITY,
                             timestamp_key: ocel_constants.DEFAULT_EVENT_TIMESTAMP,
@@ -154,7 +154,7 @@ def __get_objects_dataframe(df: pd.DataFrame, case_id_key: str, case_attribute_p
     """
     Internal method to get the objects dataframe out of a traditional log stored as Pandas dataframe
     """
-    columns = {x for x in df.columns if x.startswith(case_attribute_prefix)}
+    columns = [x for x in df.columns if x == case_id_key or x.startswith(case_attribute_prefix)]
     df = df[columns]
     df = df.rename(columns={case_id_key: ocel_constants.DEFAULT_OBJECT_ID})
     df = df.groupby(ocel_constants.DEFAULT_OBJECT_ID).first().reset_index()
@@ -267,14 +267,14 @@ def from_interleavings(df1: pd.DataFrame, df2: pd.DataFrame, interleavings: pd.D
     relations1 = __get_relations_from_events(events1, target_object_type)
 
     relations1_minimal = relations1[
-        {ocel_constants.DEFAULT_EVENT_ID, ocel_constants.DEFAULT_OBJECT_ID, ocel_constants.DEFAULT_OBJECT_TYPE}]
+        [ocel_constants.DEFAULT_EVENT_ID, ocel_constants.DEFAULT_OBJECT_ID, ocel_constants.DEFAULT_OBJECT_TYPE]]
 
     events2 = __get_events_dataframe(df2, activity_key, timestamp_key, case_id_key, case_attribute_prefix,
                                      events_prefix="E2_")
     objects2 = __get_objects_dataframe(df2, case_id_key, case_attribute_prefix, target_object_type_2)
     relations2 = __get_relations_from_events(events2, target_object_type_2)
     relations2_minimal = relations2[
-        {ocel_constants.DEFAULT_EVENT_ID, ocel_constants.DEFAULT_OBJECT_ID, ocel_constants.DEFAULT_OBJECT_TYPE}]
+        [ocel_constants.DEFAULT_EVENT_ID, ocel_constants.DEFAULT_OBJECT_ID, ocel_constants.DEFAULT_OBJECT_TYPE]]
 
     interleavings[left_index] = "E1_" + interleavings[left_index].astype(int).astype(str)
     interleavings[right_index] = "E2_" + interleavings[right_index].astype(int).astype(str)
-- 
2.43.0


From 5ea9e86bac0c765c80010c3d3afef96d3b2bc612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:38 +0000
Subject: [PATCH 092/104] fix: OC Petri net: skip object types without
 relations

---
 pm4py/algo/discovery/ocel/ocpn/variants/classic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/ocel/ocpn/variants/classic.py b/pm4py/algo/discovery/ocel/ocpn/variants/classic.py
index cbc9163..415b617 100644
--- a/pm4py/algo/discovery/ocel/ocpn/variants/classic.py
+++ b/pm4py/algo/discovery/ocel/ocpn/variants/classic.py
@@ -107,6 +107,10 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> Dict[str,
     tbr_results = {}
 
     for ot in ocpn["object_types"]:
+        if ot not in ocpn["activities_ot"]["total_objects"]:
+            # no object of this type is related to an event
+            continue
+
         activities_eo = ocpn["activities_ot"]["total_objects"][ot]
 
         start_activities = {x: len(y) for x, y in ocpn["start_activities"]["events"][ot].items()}
@@ -117,7 +121,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> Dict[str,
 
         is_activity_double = {}
         for act in activities_eo:
-            ev_obj_count = Counter([x[0] for x in activities_eo[act]])
+            ev_obj_count = Counter([x[0] for x in set(activities_eo[act])])
             this_single_amount = 0
             for y in ev_obj_count.values():
                 if y == 1:
-- 
2.43.0


From 5d13b5614bb49a1b42667b15c735cba47427a876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:38 +0000
Subject: [PATCH 093/104] fix: count an object once per event when it is
 related with several qualifiers

---
 pm4py/objects/ocel/util/e2o_qualification.py           |  3 ++-
 .../objects/ocel/util/events_per_type_per_activity.py  |  2 +-
 pm4py/objects/ocel/util/flattening.py                  |  2 ++
 .../objects/ocel/util/objects_per_type_per_activity.py |  2 +-
 pm4py/ocel.py                                          | 10 ++++++----
 pm4py/statistics/ocel/edge_metrics.py                  |  2 +-
 pm4py/statistics/ocel/objects_ot_count.py              |  2 +-
 7 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/pm4py/objects/ocel/util/e2o_qualification.py b/pm4py/objects/ocel/util/e2o_qualification.py
index fbda6be..9433c4f 100644
--- a/pm4py/objects/ocel/util/e2o_qualification.py
+++ b/pm4py/objects/ocel/util/e2o_qualification.py
@@ -34,8 +34,9 @@ def apply(ocel: OCEL, qualifier_type: str, parameters: Optional[Dict[Any, Any]]
     concat_column = exec_utils.get_param_value(Parameters.CONCAT_COLUMN, parameters, "@@concat")
 
     ocel = copy(ocel)
+    ocel.relations = ocel.relations.copy()
     ocel.relations[concat_column] = ocel.relations[ocel.event_id_column] + concatener + ocel.relations[ocel.object_id_column]
-    relations = ocel.relations.groupby(ocel.object_id_column)[ocel.event_id_column]
+    relations = ocel.relations.drop_duplicates(subset=[ocel.event_id_column, ocel.object_id_column]).groupby(ocel.object_id_column)[ocel.event_id_column]
 
     if qualifier_type == "creation":
         relations = relations.first().to_dict()
diff --git a/pm4py/objects/ocel/util/events_per_type_per_activity.py b/pm4py/objects/ocel/util/events_per_type_per_activity.py
index 1847bef..749e6f8 100644
--- a/pm4py/objects/ocel/util/events_per_type_per_activity.py
+++ b/pm4py/objects/ocel/util/events_per_type_per_activity.py
@@ -67,7 +67,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> Dict[str,
     for act in activities:
         if act not in ret:
             ret[act] = {}
-        df = ocel.relations[ocel.relations[event_activity] == act]
+        df = ocel.relations[ocel.relations[event_activity] == act].drop_duplicates(subset=[event_id, object_id])
         for ot in object_types:
             all_counts = list(df[df[object_type] == ot].groupby(object_id)[event_id].agg("count").to_dict().values())
             if all_counts:
diff --git a/pm4py/objects/ocel/util/flattening.py b/pm4py/objects/ocel/util/flattening.py
index 80d1f09..4f1223c 100644
--- a/pm4py/objects/ocel/util/flattening.py
+++ b/pm4py/objects/ocel/util/flattening.py
@@ -66,6 +66,8 @@ def flatten(ocel: OCEL, ot: str, parameters: Optional[Dict[Any, Any]] = None) ->
 
     relations = ocel.relations[ocel.relations[ocel.object_type_column] == ot][
         [ocel.object_id_column, ocel.event_id_column]]
+    # the same object could be related to the same event with several qualifiers
+    relations = relations.drop_duplicates()
     relations = relations.rename(columns={ocel.object_id_column: constants.CASE_CONCEPT_NAME})
 
     objects = objects.merge(relations, on=constants.CASE_CONCEPT_NAME)
diff --git a/pm4py/objects/ocel/util/objects_per_type_per_activity.py b/pm4py/objects/ocel/util/objects_per_type_per_activity.py
index 6785717..9920a1f 100644
--- a/pm4py/objects/ocel/util/objects_per_type_per_activity.py
+++ b/pm4py/objects/ocel/util/objects_per_type_per_activity.py
@@ -67,7 +67,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> Dict[str,
     for act in activities:
         if act not in ret:
             ret[act] = {}
-        df = ocel.relations[ocel.relations[event_activity] == act]
+        df = ocel.relations[ocel.relations[event_activity] == act].drop_duplicates(subset=[event_id, object_id])
         for ot in object_types:
             all_counts = list(df[df[object_type] == ot].groupby(event_id)[object_id].agg("count").to_dict().values())
             if all_counts:
diff --git a/pm4py/ocel.py b/pm4py/ocel.py
index 8e50784..b496982 100644
--- a/pm4py/ocel.py
+++ b/pm4py/ocel.py
@@ -158,7 +158,8 @@ def ocel_objects_summary(ocel: OCEL) -> pd.DataFrame:
 
         objects_summary = pm4py.ocel_objects_summary(ocel)
     """
-    gdf = ocel.relations.groupby(ocel.object_id_column)
+    relations = ocel.relations.drop_duplicates(subset=[ocel.event_id_column, ocel.object_id_column])
+    gdf = relations.groupby(ocel.object_id_column)
     act_comb = gdf[ocel.event_activity].agg(list).to_frame().rename(columns={ocel.event_activity: "activities_lifecycle"})
     lif_start_tim = gdf[ocel.event_timestamp].min().to_frame().rename(columns={ocel.event_timestamp: "lifecycle_start"})
     lif_end_tim = gdf[ocel.event_timestamp].max().to_frame().rename(columns={ocel.event_timestamp: "lifecycle_end"})
@@ -166,7 +167,7 @@ def ocel_objects_summary(ocel: OCEL) -> pd.DataFrame:
     objects_summary = objects_summary.join(lif_end_tim)
     objects_summary = objects_summary.reset_index()
     objects_summary["lifecycle_duration"] = pandas_utils.get_total_seconds(objects_summary["lifecycle_end"] - objects_summary["lifecycle_start"])
-    ev_rel_obj = ocel.relations.groupby(ocel.event_id_column)[ocel.object_id_column].agg(list).to_dict()
+    ev_rel_obj = relations.groupby(ocel.event_id_column)[ocel.object_id_column].agg(list).to_dict()
     objects_ids = pandas_utils.format_unique(ocel.objects[ocel.object_id_column].unique())
     graph = {o: set() for o in objects_ids}
     for ev in ev_rel_obj:
@@ -196,7 +197,8 @@ def ocel_objects_interactions_summary(ocel: OCEL) -> pd.DataFrame:
     """
     obj_types = ocel.objects.groupby(ocel.object_id_column)[ocel.object_type_column].first().to_dict()
     eve_activities = ocel.events.groupby(ocel.event_id_column)[ocel.event_activity].first().to_dict()
-    ev_rel_obj = ocel.relations.groupby(ocel.event_id_column)[ocel.object_id_column].agg(list).to_dict()
+    relations = ocel.relations.drop_duplicates(subset=[ocel.event_id_column, ocel.object_id_column])
+    ev_rel_obj = relations.groupby(ocel.event_id_column)[ocel.object_id_column].agg(list).to_dict()
     stream = []
     for ev in ev_rel_obj:
         rel_obj = ev_rel_obj[ev]
@@ -459,7 +461,7 @@ def ocel_merge_duplicates(ocel: OCEL, have_common_object: Optional[bool]=False)
     relations = relations.groupby(ocel.event_id_column).first()["@@groupn"].to_dict()
     relations = {x: val_corr[y] for x, y in relations.items()}
 
-    ocel.events[ocel.event_id_column] = ocel.events[ocel.event_id_column].map(relations)
+    ocel.events[ocel.event_id_column] = ocel.events[ocel.event_id_column].map(lambda x: relations.get(x, x))
     ocel.relations[ocel.event_id_column] = ocel.relations[ocel.event_id_column].map(relations)
 
     ocel.events = ocel.events.drop_duplicates(subset=[ocel.event_id_column])
diff --git a/pm4py/statistics/ocel/edge_metrics.py b/pm4py/statistics/ocel/edge_metrics.py
index 92f8c92..4825f1e 100644
--- a/pm4py/statistics/ocel/edge_metrics.py
+++ b/pm4py/statistics/ocel/edge_metrics.py
@@ -215,7 +215,7 @@ def find_associations_per_edge(ocel: OCEL, parameters: Optional[Dict[Any, Any]]
     activities = ocel.events.groupby(event_id)[event_activity].agg(list).to_dict()
     activities = {x: y[0] for x, y in activities.items()}
 
-    omap = ocel.relations.groupby(event_id)[object_id].agg(list).to_dict()
+    omap = ocel.relations.drop_duplicates(subset=[event_id, object_id]).groupby(event_id)[object_id].agg(list).to_dict()
     objtypes = ocel.objects.groupby(object_id)[object_type].agg(list).to_dict()
     objtypes = {x: y[0] for x, y in objtypes.items()}
 
diff --git a/pm4py/statistics/ocel/objects_ot_count.py b/pm4py/statistics/ocel/objects_ot_count.py
index f156d76..b12ffde 100644
--- a/pm4py/statistics/ocel/objects_ot_count.py
+++ b/pm4py/statistics/ocel/objects_ot_count.py
@@ -54,7 +54,7 @@ def get_objects_ot_count(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None
     object_id = exec_utils.get_param_value(Parameters.OBJECT_ID, parameters, ocel.object_id_column)
     object_type = exec_utils.get_param_value(Parameters.OBJECT_TYPE, parameters, ocel.object_type_column)
 
-    ref0 = ocel.relations.groupby(event_id)[object_type].agg(list).to_dict()
+    ref0 = ocel.relations.drop_duplicates(subset=[event_id, ocel.object_id_column]).groupby(event_id)[object_type].agg(list).to_dict()
     ref = {x: Counter(y) for x, y in ref0.items()}
 
     return ref
-- 
2.43.0


From 5c5d3856621e77686db419b82be4045d8fc27e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:44 +0000
Subject: [PATCH 094/104] fix: streaming token replay: final silent moves,
 events after a failed search for silent moves, token balance at the end

---
 .../streaming/algo/conformance/tbr/variants/classic.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pm4py/streaming/algo/conformance/tbr/variants/classic.py b/pm4py/streaming/algo/conformance/tbr/variants/classic.py
index 1c0b491..ffa21f9 100644
--- a/pm4py/streaming/algo/conformance/tbr/variants/classic.py
+++ b/pm4py/streaming/algo/conformance/tbr/variants/classic.py
@@ -119,7 +119,7 @@ class TbrStreamingConformance(StreamingAlgorithm):
         for el in shortest_path:
             if type(el[0]) is PetriNet.Place:
                 for sel in el[1]:
-                    spath = [x for x in el[1][sel][1:-2] if type(x) is PetriNet.Transition]
+                    spath = [x for x in el[1][sel][1:-1] if type(x) is PetriNet.Transition]
                     if spath:
                         if not el[0] in dictio_spaths:
                             dictio_spaths[el[0]] = {}
@@ -216,7 +216,7 @@ class TbrStreamingConformance(StreamingAlgorithm):
                 for a in t.in_arcs:
                     pl = a.source
                     mark = a.weight
-                    if pl not in marking or new_marking[pl] < mark:
+                    if pl not in marking or marking[pl] < mark:
                         self.missing[case] = int(self.missing[case]) + (mark - marking[pl])
                         marking[pl] = mark
                 new_marking = semantics.weak_execute(t, marking)
@@ -294,7 +294,7 @@ class TbrStreamingConformance(StreamingAlgorithm):
         if case in self.case_dict:
             remaining = 0
             if not self.decode_marking(self.case_dict[case]) == self.fm:
-                new_marking = self.reach_fm_with_invisibles(self.case_dict[case])
+                new_marking = self.reach_fm_with_invisibles(self.decode_marking(self.case_dict[case]))
                 if new_marking is None:
                     new_marking = self.decode_marking(self.case_dict[case])
                 if not new_marking == self.fm:
@@ -303,11 +303,11 @@ class TbrStreamingConformance(StreamingAlgorithm):
                     for m in fm_copy:
                         if not m in new_marking:
                             new_marking[m] = 0
-                        self.missing[case] = int(self.missing[case]) + (fm_copy[m] - new_marking[m])
+                        self.missing[case] = int(self.missing[case]) + max(0, fm_copy[m] - new_marking[m])
                     for m in new_marking:
                         if not m in fm_copy:
                             fm_copy[m] = 0
-                        remaining += new_marking[m] - fm_copy[m]
+                        remaining += max(0, new_marking[m] - fm_copy[m])
             missing = int(self.missing[case])
             is_fit = missing == 0 and remaining == 0
             ret = {"marking": self.decode_marking(self.case_dict[case]), "missing": missing, "remaining": remaining, "is_fit": is_fit}
-- 
2.43.0


From 37b5e28e997fbc8dde0de85d49f0ef8921d78748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:44 +0000
Subject: [PATCH 095/104] fix: streaming footprints: keep the deviations of
 cases starting with unknown activities

---
 .../conformance/footprints/variants/classic.py   | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pm4py/streaming/algo/conformance/footprints/variants/classic.py b/pm4py/streaming/algo/conformance/footprints/variants/classic.py
index 9342c53..24de796 100644
--- a/pm4py/streaming/algo/conformance/footprints/variants/classic.py
+++ b/pm4py/streaming/algo/conformance/footprints/variants/classic.py
@@ -116,7 +116,7 @@ class FootprintsStreamingConformance(StreamingAlgorithm):
         activity
             Activity
         """
-        if case not in self.case_dict.keys():
+        if case not in self.dev_dict.keys():
             self.dev_dict[case] = 0
         if activity in self.activities:
             if case not in self.case_dict.keys():
@@ -174,7 +174,7 @@ class FootprintsStreamingConformance(StreamingAlgorithm):
         boolean
             Boolean value (True if there are no deviations)
         """
-        if case in self.case_dict.keys():
+        if case in self.dev_dict.keys():
             num_dev = int(self.dev_dict[case])
             if num_dev == 0:
                 return True
@@ -197,13 +197,15 @@ class FootprintsStreamingConformance(StreamingAlgorithm):
         boolean
             Boolean value (True if there are no deviations)
         """
-        if case in self.case_dict.keys():
-            curr = self.case_dict[case]
+        if case in self.dev_dict.keys():
+            # the activity is missing if all the events of the case were not possible
+            curr = self.case_dict[case] if case in self.case_dict.keys() else None
             if curr not in self.end_activities:
                 self.message_end_activity_not_possible(curr, case)
                 self.dev_dict[case] = int(self.dev_dict[case]) + 1
             num_dev = int(self.dev_dict[case])
-            del self.case_dict[case]
+            if case in self.case_dict.keys():
+                del self.case_dict[case]
             del self.dev_dict[case]
             if num_dev == 0:
                 return True
@@ -216,7 +218,7 @@ class FootprintsStreamingConformance(StreamingAlgorithm):
         """
         Terminate all cases
         """
-        cases = list(self.case_dict.keys())
+        cases = list(self.dev_dict.keys())
         for case in cases:
             self.terminate(case)
 
@@ -303,7 +305,7 @@ class FootprintsStreamingConformance(StreamingAlgorithm):
         """
         import pandas as pd
 
-        cases = list(self.case_dict.keys())
+        cases = list(self.dev_dict.keys())
 
         diagn_stream = []
 
-- 
2.43.0


From 871123708abe126f537a2d0523323ef1586ccdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:21 +0000
Subject: [PATCH 096/104] fix: live streams hand the events to each observer in
 the order of the stream

---
 pm4py/streaming/stream/live_event_stream.py | 15 ++++++++++++++-
 pm4py/streaming/stream/live_trace_stream.py | 15 ++++++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/pm4py/streaming/stream/live_event_stream.py b/pm4py/streaming/stream/live_event_stream.py
index 53aec69..70e210a 100644
--- a/pm4py/streaming/stream/live_event_stream.py
+++ b/pm4py/streaming/stream/live_event_stream.py
@@ -39,6 +39,7 @@ class LiveEventStream:
         self._lock = threading.Lock()
         self._cond = threading.Condition(self._lock)
         self._observers = set()
+        self._mailboxes = {}
         self._mail_man = None
         self._tp = ThreadPoolExecutor(exec_utils.get_param_value(Parameters.THREAD_POOL_SIZE, parameters, 6))
 
@@ -61,9 +62,21 @@ class LiveEventStream:
                     return
             event = self._dq.popleft()
             for algo in self._observers:
-                self._tp.submit(algo.receive, event)
+                if algo not in self._mailboxes:
+                    self._mailboxes[algo] = (threading.Lock(), collections.deque())
+                mailbox = self._mailboxes[algo]
+                mailbox[1].append(event)
+                self._tp.submit(self._hand_over, algo, mailbox)
             self._cond.release()
 
+    @staticmethod
+    def _hand_over(algo, mailbox):
+        # whichever worker comes first hands over the oldest event, so that each observer receives
+        # the events in the order of the stream
+        lock, events = mailbox
+        with lock:
+            algo.receive(events.popleft())
+
     def start(self):
         self._cond.acquire()
         self._state = StreamState.ACTIVE
diff --git a/pm4py/streaming/stream/live_trace_stream.py b/pm4py/streaming/stream/live_trace_stream.py
index c9e56ec..7fa337d 100644
--- a/pm4py/streaming/stream/live_trace_stream.py
+++ b/pm4py/streaming/stream/live_trace_stream.py
@@ -39,6 +39,7 @@ class LiveTraceStream:
         self._lock = threading.Lock()
         self._cond = threading.Condition(self._lock)
         self._observers = set()
+        self._mailboxes = {}
         self._mail_man = None
         self._tp = ThreadPoolExecutor(exec_utils.get_param_value(Parameters.THREAD_POOL_SIZE, parameters, 6))
 
@@ -61,9 +62,21 @@ class LiveTraceStream:
                     return
             event = self._dq.popleft()
             for algo in self._observers:
-                self._tp.submit(algo.receive, event)
+                if algo not in self._mailboxes:
+                    self._mailboxes[algo] = (threading.Lock(), collections.deque())
+                mailbox = self._mailboxes[algo]
+                mailbox[1].append(event)
+                self._tp.submit(self._hand_over, algo, mailbox)
             self._cond.release()
 
+    @staticmethod
+    def _hand_over(algo, mailbox):
+        # whichever worker comes first hands over the oldest event, so that each observer receives
+        # the events in the order of the stream
+        lock, events = mailbox
+        with lock:
+            algo.receive(events.popleft())
+
     def start(self):
         self._cond.acquire()
         self._state = StreamState.ACTIVE
-- 
2.43.0


From 37f795ea59c39e55824779e013bf2dc32d022cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:21 +0000
Subject: [PATCH 097/104] fix: values of the thread-safe dictionary do not
 deadlock, iteration uses a snapshot

---
 pm4py/streaming/util/dictio/versions/thread_safe.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pm4py/streaming/util/dictio/versions/thread_safe.py b/pm4py/streaming/util/dictio/versions/thread_safe.py
index 7492c77..0062889 100644
--- a/pm4py/streaming/util/dictio/versions/thread_safe.py
+++ b/pm4py/streaming/util/dictio/versions/thread_safe.py
@@ -33,7 +33,7 @@ class ThreadSafeDict(dict):
 
     def __iter__(self):
         self.lock.acquire()
-        ret = iter(self.itemlist)
+        ret = iter(list(self.itemlist))
         self.lock.release()
         return ret
 
@@ -45,13 +45,13 @@ class ThreadSafeDict(dict):
 
     def values(self):
         self.lock.acquire()
-        ret = [self[key] for key in self]
+        ret = list(super(ThreadSafeDict, self).values())
         self.lock.release()
         return ret
 
     def itervalues(self):
         self.lock.acquire()
-        ret = (self[key] for key in self)
+        ret = iter(list(super(ThreadSafeDict, self).values()))
         self.lock.release()
         return ret
 
-- 
2.43.0


From 7f07a78efadb3cc8da85135933e6c08ec24f918b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:07 +0000
Subject: [PATCH 098/104] fix: Monte Carlo simulation: give back each resource
 once, simulated waiting and occupation times, results of cases that time out

---
 .../montecarlo/variants/petri_semaph_fifo.py  | 69 ++++++++++---------
 1 file changed, 35 insertions(+), 34 deletions(-)

diff --git a/pm4py/algo/simulation/montecarlo/variants/petri_semaph_fifo.py b/pm4py/algo/simulation/montecarlo/variants/petri_semaph_fifo.py
index 4d8fd64..6411eab 100644
--- a/pm4py/algo/simulation/montecarlo/variants/petri_semaph_fifo.py
+++ b/pm4py/algo/simulation/montecarlo/variants/petri_semaph_fifo.py
@@ -17,6 +17,7 @@
 from pm4py.statistics.traces.generic.log import case_arrival
 from pm4py.algo.simulation.montecarlo.utils import replay
 from pm4py.objects.petri_net.semantics import enabled_transitions, weak_execute
+from bisect import insort
 from threading import Thread, Semaphore
 from statistics import median
 from pm4py.objects.log.obj import Trace, Event
@@ -175,11 +176,17 @@ class SimulationThread(Thread):
         self.internal_thread_start_time = time()
         rem_time = self.get_rem_time()
 
-        acquired_places = set()
+        # the resources that are currently held (one entry per resource), and the times in which
+        # the tokens of this case entered the places
+        acquired_places = []
+        entered_time = {}
         acquired = source.semaphore.acquire(timeout=rem_time)
         if acquired:
-            acquired_places.add(source)
-        source.assigned_time.append(current_time)
+            acquired_places.append(source)
+            current_time = max(current_time, source.assigned_time.pop(0))
+        else:
+            rem_time = 0
+        entered_time[source] = [current_time]
 
         current_marking = im
         et = enabled_transitions(net, current_marking)
@@ -187,7 +194,7 @@ class SimulationThread(Thread):
         first_event = None
         last_event = None
 
-        while not fm <= current_marking or len(et) == 0:
+        while rem_time > 0 and (not fm <= current_marking or len(et) == 0):
             et = list(enabled_transitions(net, current_marking))
             ct = stochastic_utils.pick_transition(et, smap)
 
@@ -200,22 +207,17 @@ class SimulationThread(Thread):
             waiting_time = 0
             for arc in ct.out_arcs:
                 place = arc.target
-                sem_value = int(place.semaphore._value)
                 rem_time = self.get_rem_time()
                 acquired = place.semaphore.acquire(timeout=rem_time)
                 if acquired:
-                    acquired_places.add(place)
-                rem_time = self.get_rem_time()
+                    acquired_places.append(place)
+                    # the resource may have been released at a later (simulated) time
+                    waiting_time = max(waiting_time, place.assigned_time.pop(0) - current_time)
+                rem_time = self.get_rem_time() if acquired else 0
                 if rem_time == 0:
                     break
-                if sem_value == 0:
-                    waiting_time = max(waiting_time,
-                                       place.assigned_time.pop(
-                                           0) - current_time) if place.assigned_time else waiting_time
 
             if rem_time == 0:
-                for place in acquired_places:
-                    place.semaphore.release()
                 break
 
             # if the waiting time is greater than 0, add an interval to the interval tree denoting
@@ -232,8 +234,7 @@ class SimulationThread(Thread):
 
             for arc in ct.out_arcs:
                 place = arc.target
-                place.assigned_time.append(current_time)
-                place.assigned_time = sorted(place.assigned_time)
+                entered_time.setdefault(place, []).append(current_time)
 
             current_marking = weak_execute(ct, current_marking)
 
@@ -247,28 +248,27 @@ class SimulationThread(Thread):
 
             for arc in ct.in_arcs:
                 place = arc.source
-                p_ex_time = place.assigned_time.pop(0)
+                p_ex_time = entered_time[place].pop(0)
                 if current_time - p_ex_time > 0:
                     places_interval_trees[place].add(Interval(p_ex_time, current_time))
-                place.assigned_time.append(current_time)
-                place.assigned_time = sorted(place.assigned_time)
+                acquired_places.remove(place)
+                insort(place.assigned_time, current_time)
                 place.semaphore.release()
 
             # sleep before starting next iteration
             sleep((waiting_time + execution_time) / self.small_scale_factor)
 
         if first_event is not None and last_event is not None:
-            cases_ex_time.append(last_event[xes_constants.DEFAULT_TIMESTAMP_KEY].timestamp() - first_event[
-                xes_constants.DEFAULT_TIMESTAMP_KEY].timestamp())
+            cases_ex_time[self.id] = last_event[xes_constants.DEFAULT_TIMESTAMP_KEY].timestamp() - first_event[
+                xes_constants.DEFAULT_TIMESTAMP_KEY].timestamp()
         else:
-            cases_ex_time.append(0)
+            cases_ex_time[self.id] = 0
 
-        places_to_free = set(current_marking).union(acquired_places)
-
-        for place in places_to_free:
+        for place in acquired_places:
+            insort(place.assigned_time, current_time)
             place.semaphore.release()
 
-        rem_time = self.get_rem_time()
+        rem_time = min(rem_time, self.get_rem_time())
         if rem_time > 0:
             self.terminated_correctly = True
             if self.enable_diagnostics:
@@ -369,18 +369,20 @@ def apply(log: EventLog, net: PetriNet, im: Marking, fm: Marking, parameters: Op
 
     places_interval_trees = {}
     transitions_interval_trees = {}
-    cases_ex_time = []
+    cases_ex_time = {}
     list_cases = {}
 
     for place in net.places:
         # assign a semaphore to each place.
         if place in resources_per_places:
-            place.semaphore = Semaphore(resources_per_places[place])
+            no_resources = resources_per_places[place]
         else:
             # if the user does not specify the number of resources per place,
             # the default number is used
-            place.semaphore = Semaphore(default_num_resources_per_places)
-        place.assigned_time = []
+            no_resources = default_num_resources_per_places
+        place.semaphore = Semaphore(no_resources)
+        # (simulated) times since which the free resources are available
+        place.assigned_time = [0] * no_resources
         places_interval_trees[place] = IntervalTree()
     for trans in net.transitions:
         transitions_interval_trees[trans] = IntervalTree()
@@ -420,7 +422,6 @@ def apply(log: EventLog, net: PetriNet, im: Marking, fm: Marking, parameters: Op
         if threads[i].terminated_correctly is False:
             del list_cases[threads[i].id]
             del threads[i]
-            del cases_ex_time[i]
             continue
         i = i + 1
 
@@ -428,14 +429,14 @@ def apply(log: EventLog, net: PetriNet, im: Marking, fm: Marking, parameters: Op
         logger.info(str(time()) + " ended the Monte carlo simulation.")
 
     log = EventLog(list(list_cases.values()))
-    min_timestamp = log[0][0][timestamp_key].timestamp()
-    max_timestamp = max(y[timestamp_key].timestamp() for x in log for y in x)
+    timestamps = [y[xes_constants.DEFAULT_TIMESTAMP_KEY].timestamp() for x in log for y in x]
+    cases_ex_time = [cases_ex_time[t.id] for t in threads]
 
     transitions_interval_trees = {t.name: y for t, y in transitions_interval_trees.items()}
 
     return log, {Outputs.OUTPUT_PLACES_INTERVAL_TREES.value: places_interval_trees,
                  Outputs.OUTPUT_TRANSITIONS_INTERVAL_TREES.value: transitions_interval_trees,
                  Outputs.OUTPUT_CASES_EX_TIME.value: cases_ex_time,
-                 Outputs.OUTPUT_MEDIAN_CASES_EX_TIME.value: median(cases_ex_time),
+                 Outputs.OUTPUT_MEDIAN_CASES_EX_TIME.value: median(cases_ex_time) if cases_ex_time else 0,
                  Outputs.OUTPUT_CASE_ARRIVAL_RATIO.value: case_arrival_ratio,
-                 Outputs.OUTPUT_TOTAL_CASES_TIME.value: max_timestamp - min_timestamp}
+                 Outputs.OUTPUT_TOTAL_CASES_TIME.value: max(timestamps) - min(timestamps) if timestamps else 0}
-- 
2.43.0


From 29b1e944e5589a93ded1e6584e481e5959e1e149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:07 +0000
Subject: [PATCH 099/104] fix: normal, uniform and deterministic distributions
 read from strings are numeric

---
 .../objects/random_variables/deterministic/random_variable.py | 2 +-
 pm4py/objects/random_variables/normal/random_variable.py      | 4 ++--
 pm4py/objects/random_variables/uniform/random_variable.py     | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pm4py/objects/random_variables/deterministic/random_variable.py b/pm4py/objects/random_variables/deterministic/random_variable.py
index 56478b9..0ca17bd 100644
--- a/pm4py/objects/random_variables/deterministic/random_variable.py
+++ b/pm4py/objects/random_variables/deterministic/random_variable.py
@@ -46,7 +46,7 @@ class Deterministic(BasicStructureRandomVariable):
         distribution_parameters
             Current distribution parameters as exported on the Petri net
         """
-        self.value = distribution_parameters
+        self.value = float(distribution_parameters)
 
     def get_transition_type(self):
         """
diff --git a/pm4py/objects/random_variables/normal/random_variable.py b/pm4py/objects/random_variables/normal/random_variable.py
index 60f6097..52af9cb 100644
--- a/pm4py/objects/random_variables/normal/random_variable.py
+++ b/pm4py/objects/random_variables/normal/random_variable.py
@@ -51,8 +51,8 @@ class Normal(BasicStructureRandomVariable):
         distribution_parameters
             Current distribution parameters as exported on the Petri net
         """
-        self.mu = distribution_parameters.split(";")[0]
-        self.sigma = distribution_parameters.split(";")[1]
+        self.mu = float(distribution_parameters.split(";")[0])
+        self.sigma = float(distribution_parameters.split(";")[1])
 
     def get_distribution_type(self):
         """
diff --git a/pm4py/objects/random_variables/uniform/random_variable.py b/pm4py/objects/random_variables/uniform/random_variable.py
index 99cb2fd..4c143fa 100644
--- a/pm4py/objects/random_variables/uniform/random_variable.py
+++ b/pm4py/objects/random_variables/uniform/random_variable.py
@@ -51,8 +51,8 @@ class Uniform(BasicStructureRandomVariable):
         distribution_parameters
             Current distribution parameters as exported on the Petri net
         """
-        self.loc = distribution_parameters.split(";")[0]
-        self.scale = distribution_parameters.split(";")[1]
+        self.loc = float(distribution_parameters.split(";")[0])
+        self.scale = float(distribution_parameters.split(";")[1])
 
     def get_distribution_type(self):
         """
-- 
2.43.0


From 5969de72c9fd19e62b56bc78260c3ecbe8726aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:42 +0000
Subject: [PATCH 100/104] fix: subcontracting counts every occurrence, working
 together on dataframes is relative to the number of cases, networks may be
 empty

---
 pm4py/algo/organizational_mining/sna/algorithm.py      |  2 +-
 .../sna/variants/log/subcontracting.py                 | 10 +++++-----
 .../sna/variants/pandas/subcontracting.py              | 10 +++++-----
 .../sna/variants/pandas/working_together.py            |  5 +++--
 4 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/pm4py/algo/organizational_mining/sna/algorithm.py b/pm4py/algo/organizational_mining/sna/algorithm.py
index c42847e..c54ee6e 100644
--- a/pm4py/algo/organizational_mining/sna/algorithm.py
+++ b/pm4py/algo/organizational_mining/sna/algorithm.py
@@ -83,7 +83,7 @@ def apply(log: Union[EventLog, pd.DataFrame], parameters: Optional[Dict[Union[st
                    Variants.SUBCONTRACTING_LOG]:
         log = log_conversion.apply(log, variant=log_conversion.Variants.TO_EVENT_LOG, parameters=parameters)
     sna = exec_utils.get_variant(variant).apply(log, parameters=parameters)
-    abs_max = np.max(np.abs(list(sna.connections.values())))
+    abs_max = np.max(np.abs(list(sna.connections.values()))) if sna.connections else 0
     if enable_metric_normalization and abs_max > 0:
         for key in sna.connections:
             sna.connections[key] = sna.connections[key] / abs_max
diff --git a/pm4py/algo/organizational_mining/sna/variants/log/subcontracting.py b/pm4py/algo/organizational_mining/sna/variants/log/subcontracting.py
index e222f68..b5fc68f 100644
--- a/pm4py/algo/organizational_mining/sna/variants/log/subcontracting.py
+++ b/pm4py/algo/organizational_mining/sna/variants/log/subcontracting.py
@@ -82,11 +82,11 @@ def apply(log: EventLog, parameters: Optional[Dict[Union[str, Parameters], Any]]
             if res_i == res_i_n:
                 if res_i not in sum_i_to_j:
                     sum_i_to_j[res_i] = {}
-                    for j in range(i + 1, i + n):
-                        res_j = flat_list.index(rv[j])
-                        if res_j not in sum_i_to_j[res_i]:
-                            sum_i_to_j[res_i][res_j] = 0
-                        sum_i_to_j[res_i][res_j] += variants_occ[rvj]
+                for j in range(i + 1, i + n):
+                    res_j = flat_list.index(rv[j])
+                    if res_j not in sum_i_to_j[res_i]:
+                        sum_i_to_j[res_i][res_j] = 0
+                    sum_i_to_j[res_i][res_j] += variants_occ[rvj]
 
     connections = {}
     for key1 in sum_i_to_j:
diff --git a/pm4py/algo/organizational_mining/sna/variants/pandas/subcontracting.py b/pm4py/algo/organizational_mining/sna/variants/pandas/subcontracting.py
index b3a1dbe..dcc761d 100644
--- a/pm4py/algo/organizational_mining/sna/variants/pandas/subcontracting.py
+++ b/pm4py/algo/organizational_mining/sna/variants/pandas/subcontracting.py
@@ -85,11 +85,11 @@ def apply(log: pd.DataFrame, parameters: Optional[Dict[Union[str, Parameters], A
             if res_i == res_i_n:
                 if res_i not in sum_i_to_j:
                     sum_i_to_j[res_i] = {}
-                    for j in range(i + 1, i + n):
-                        res_j = flat_list.index(rv[j])
-                        if res_j not in sum_i_to_j[res_i]:
-                            sum_i_to_j[res_i][res_j] = 0
-                        sum_i_to_j[res_i][res_j] += variants_occ[rvj]
+                for j in range(i + 1, i + n):
+                    res_j = flat_list.index(rv[j])
+                    if res_j not in sum_i_to_j[res_i]:
+                        sum_i_to_j[res_i][res_j] = 0
+                    sum_i_to_j[res_i][res_j] += variants_occ[rvj]
 
     connections = {}
     for key1 in sum_i_to_j:
diff --git a/pm4py/algo/organizational_mining/sna/variants/pandas/working_together.py b/pm4py/algo/organizational_mining/sna/variants/pandas/working_together.py
index cdcccc7..ac75d80 100644
--- a/pm4py/algo/organizational_mining/sna/variants/pandas/working_together.py
+++ b/pm4py/algo/organizational_mining/sna/variants/pandas/working_together.py
@@ -70,6 +70,7 @@ def apply(log: pd.DataFrame, parameters: Optional[Dict[Union[str, Parameters], A
     flat_list = sorted(list(set([item for sublist in resources for item in sublist])))
 
     connections = Counter()
+    num_cases = log[case_id_key].nunique()
 
     for idx, rv in enumerate(resources):
         rvj = variants_resources[idx]
@@ -79,7 +80,7 @@ def apply(log: pd.DataFrame, parameters: Optional[Dict[Union[str, Parameters], A
             res_i = flat_list.index(ord_res_list[i])
             for j in range(i + 1, len(ord_res_list)):
                 res_j = flat_list.index(ord_res_list[j])
-                connections[(flat_list[res_i], flat_list[res_j])] += float(variants_occ[rvj]) / float(len(log))
-                connections[(flat_list[res_j], flat_list[res_i])] += float(variants_occ[rvj]) / float(len(log))
+                connections[(flat_list[res_i], flat_list[res_j])] += float(variants_occ[rvj]) / float(num_cases)
+                connections[(flat_list[res_j], flat_list[res_i])] += float(variants_occ[rvj]) / float(num_cases)
 
     return SNA(dict(connections), False)
-- 
2.43.0


From 1cd208984c9d7595a89c51b8f489249f2b2a5ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:42 +0000
Subject: [PATCH 101/104] fix: local diagnostics on dataframes without (or with
 missing) group attribute

---
 pm4py/algo/organizational_mining/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/organizational_mining/util.py b/pm4py/algo/organizational_mining/util.py
index e3f2285..e7b934f 100644
--- a/pm4py/algo/organizational_mining/util.py
+++ b/pm4py/algo/organizational_mining/util.py
@@ -121,7 +121,7 @@ def get_res_act_from_log(log_obj: Union[pd.DataFrame, EventLog], parameters: Opt
     act_res = {}
 
     if pandas_utils.check_is_pandas_dataframe(log_obj):
-        aggr = log_obj.groupby([activity_key, resource_key]).count().to_dict()[group_key]
+        aggr = log_obj.groupby([activity_key, resource_key]).size().to_dict()
         for el in aggr:
             if not el[1] in res_act:
                 res_act[el[1]] = {}
-- 
2.43.0


From bd9b6bb74d45b3b5a85007cdc22b97cf6bbd3430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:42 +0000
Subject: [PATCH 102/104] fix: resource profiles: half-open window for social
 position, custom case identifiers, simultaneous equal tasks

---
 .../resource_profiles/variants/log.py         | 20 ++++++++++---------
 .../resource_profiles/variants/pandas.py      | 14 +++++++++----
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/pm4py/algo/organizational_mining/resource_profiles/variants/log.py b/pm4py/algo/organizational_mining/resource_profiles/variants/log.py
index 4405337..2985b53 100644
--- a/pm4py/algo/organizational_mining/resource_profiles/variants/log.py
+++ b/pm4py/algo/organizational_mining/resource_profiles/variants/log.py
@@ -353,8 +353,10 @@ def __compute_workload(log: EventLog, resource: Optional[str] = None, activity:
     tree = IntervalTree()
     ev_map = {}
     k = 0.000001
+    # the same interval may appear more than once (also for the same resource and activity)
+    events = [(*ev, idx) for idx, ev in enumerate(events)]
     for ev in events:
-        tree.add(Interval(ev[0], ev[1] + k))
+        tree.add(Interval(ev[0], ev[1] + k, ev[-1]))
     for ev in events:
         ev_map[ev] = len(tree[ev[0]:ev[1] + k])
     return ev_map
@@ -615,16 +617,16 @@ def social_position(log: EventLog, t1_0: Union[datetime, str], t2_0: Union[datet
         parameters = {}
 
     resource_key = exec_utils.get_param_value(Parameters.RESOURCE_KEY, parameters, xes_constants.DEFAULT_RESOURCE_KEY)
+    timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
+                                               xes_constants.DEFAULT_TIMESTAMP_KEY)
 
-    from pm4py.algo.filtering.log.timestamp import timestamp_filter
-    log = timestamp_filter.apply_events(log, t1_0, t2_0, parameters=parameters)
-
-    from pm4py.algo.filtering.log.attributes import attributes_filter
-    parameters_filter = {attributes_filter.Parameters.ATTRIBUTE_KEY: resource_key}
+    t1 = get_dt_from_string(t1_0)
+    t2 = get_dt_from_string(t2_0)
 
-    filtered_log = attributes_filter.apply(log, [r], parameters=parameters_filter)
+    cases_resources = [set(x[resource_key] for x in trace if t1 <= x[timestamp_key] < t2) for trace in log]
+    cases_resources = [x for x in cases_resources if x]
 
-    q1 = float(len(filtered_log))
-    q2 = float(len(log))
+    q1 = float(len([x for x in cases_resources if r in x]))
+    q2 = float(len(cases_resources))
 
     return q1/q2 if q2 > 0 else 0.0
diff --git a/pm4py/algo/organizational_mining/resource_profiles/variants/pandas.py b/pm4py/algo/organizational_mining/resource_profiles/variants/pandas.py
index 97addfb..401ed47 100644
--- a/pm4py/algo/organizational_mining/resource_profiles/variants/pandas.py
+++ b/pm4py/algo/organizational_mining/resource_profiles/variants/pandas.py
@@ -366,8 +366,10 @@ def __compute_workload(df: pd.DataFrame, resource: Optional[str] = None, activit
     tree = IntervalTree()
     ev_map = {}
     k = 0.000001
+    # the same interval may appear more than once (also for the same resource and activity)
+    events = [(*ev, idx) for idx, ev in enumerate(events)]
     for ev in events:
-        tree.add(Interval(ev[0], ev[1] + k))
+        tree.add(Interval(ev[0], ev[1] + k, ev[-1]))
     for ev in events:
         ev_map[ev] = len(tree[ev[0]:ev[1] + k])
     return ev_map
@@ -537,9 +539,11 @@ def average_case_duration(df: pd.DataFrame, t1: Union[datetime, str], t2: Union[
         parameters = {}
 
     resource_key = exec_utils.get_param_value(Parameters.RESOURCE_KEY, parameters, xes_constants.DEFAULT_RESOURCE_KEY)
+    case_id_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, constants.CASE_CONCEPT_NAME)
 
     from pm4py.algo.filtering.pandas.attributes import attributes_filter
-    parameters_filter = {attributes_filter.Parameters.ATTRIBUTE_KEY: resource_key}
+    parameters_filter = {attributes_filter.Parameters.ATTRIBUTE_KEY: resource_key,
+                         attributes_filter.Parameters.CASE_ID_KEY: case_id_key}
     df = attributes_filter.apply(df, [r], parameters=parameters_filter)
 
     from pm4py.algo.filtering.pandas.timestamp import timestamp_filter
@@ -591,7 +595,8 @@ def interaction_two_resources(df: pd.DataFrame, t1: Union[datetime, str], t2: Un
     df = df[[timestamp_key, resource_key, case_id_key, activity_key]]
 
     from pm4py.algo.filtering.pandas.attributes import attributes_filter
-    parameters_filter = {attributes_filter.Parameters.ATTRIBUTE_KEY: resource_key}
+    parameters_filter = {attributes_filter.Parameters.ATTRIBUTE_KEY: resource_key,
+                         attributes_filter.Parameters.CASE_ID_KEY: case_id_key}
     df = attributes_filter.apply(df, [r1], parameters=parameters_filter)
     df = attributes_filter.apply(df, [r2], parameters=parameters_filter)
     last_df = df.groupby(case_id_key).last().reset_index()
@@ -644,7 +649,8 @@ def social_position(df: pd.DataFrame, t1: Union[datetime, str], t2: Union[dateti
     df = df[df[timestamp_key] < t2]
 
     from pm4py.algo.filtering.pandas.attributes import attributes_filter
-    parameters_filter = {attributes_filter.Parameters.ATTRIBUTE_KEY: resource_key}
+    parameters_filter = {attributes_filter.Parameters.ATTRIBUTE_KEY: resource_key,
+                         attributes_filter.Parameters.CASE_ID_KEY: case_id_key}
     filt_df = attributes_filter.apply(df, [r], parameters=parameters_filter)
 
     q1 = float(filt_df[case_id_key].nunique())
-- 
2.43.0


From 134b9b6b554e95c3372f3811e35d4ed2ad557168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:52 +0000
Subject: [PATCH 103/104] fix: features: count identical case spans in the
 workload, cases without resources, missing string values, start timestamps of
 temporal features; activity/case tables

---
 .../log_to_features/variants/temporal.py            |  5 +++--
 .../log_to_features/variants/trace_based.py         | 13 +++++++------
 pm4py/objects/log/util/dataframe_utils.py           |  6 +++---
 3 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/pm4py/algo/transformation/log_to_features/variants/temporal.py b/pm4py/algo/transformation/log_to_features/variants/temporal.py
index 98269e1..3203970 100644
--- a/pm4py/algo/transformation/log_to_features/variants/temporal.py
+++ b/pm4py/algo/transformation/log_to_features/variants/temporal.py
@@ -87,8 +87,9 @@ def apply(log: Union[EventLog, EventStream, pd.DataFrame], parameters: Optional[
     activity_column = exec_utils.get_param_value(Parameters.ACTIVITY_COLUMN, parameters, xes_constants.DEFAULT_NAME_KEY)
 
     log = log_converter.apply(log, variant=log_converter.Variants.TO_DATA_FRAME, parameters=parameters)
-    log = pandas_utils.insert_case_arrival_finish_rate(log, case_id_column=case_id_column, timestamp_column=timestamp_column, arrival_rate_column=arrival_rate, finish_rate_column=finish_rate)
-    log = pandas_utils.insert_case_service_waiting_time(log, case_id_column=case_id_column, timestamp_column=timestamp_column, diff_start_end_column=diff_start_end, service_time_column=service_time, sojourn_time_column=sojourn_time, waiting_time_column=waiting_time)
+    log = log.copy()
+    log = pandas_utils.insert_case_arrival_finish_rate(log, case_id_column=case_id_column, timestamp_column=timestamp_column, start_timestamp_column=start_timestamp_column, arrival_rate_column=arrival_rate, finish_rate_column=finish_rate)
+    log = pandas_utils.insert_case_service_waiting_time(log, case_id_column=case_id_column, timestamp_column=timestamp_column, start_timestamp_column=start_timestamp_column, diff_start_end_column=diff_start_end, service_time_column=service_time, sojourn_time_column=sojourn_time, waiting_time_column=waiting_time)
 
     grouped_log = log.groupby(pandas_utils.get_grouper(key=start_timestamp_column, freq=grouper_freq))
 
diff --git a/pm4py/algo/transformation/log_to_features/variants/trace_based.py b/pm4py/algo/transformation/log_to_features/variants/trace_based.py
index 17bc89b..aef2161 100644
--- a/pm4py/algo/transformation/log_to_features/variants/trace_based.py
+++ b/pm4py/algo/transformation/log_to_features/variants/trace_based.py
@@ -196,7 +196,7 @@ def resource_workload(log: EventLog, parameters: Optional[Dict[Union[str, Parame
     default_not_present = exec_utils.get_param_value(Parameters.DEFAULT_NOT_PRESENT, parameters, 0)
 
     tree_dict = {}
-    for case in log:
+    for index, case in enumerate(log):
         if case:
             resources = set(x[resource_key] for x in case if resource_key in x)
             st = case[0][start_timestamp_key].timestamp() - epsilon
@@ -204,7 +204,7 @@ def resource_workload(log: EventLog, parameters: Optional[Dict[Union[str, Parame
             for res in resources:
                 if res not in tree_dict:
                     tree_dict[res] = IntervalTree()
-                tree_dict[res].add(Interval(st, ct))
+                tree_dict[res].add(Interval(st, ct, index))
 
     resources_list = sorted(list(tree_dict))
 
@@ -214,8 +214,9 @@ def resource_workload(log: EventLog, parameters: Optional[Dict[Union[str, Parame
     for case in log:
         data.append([])
         resources = set(x[resource_key] for x in case if resource_key in x)
-        st = case[0][start_timestamp_key].timestamp() - epsilon
-        ct = case[-1][timestamp_key].timestamp() + epsilon
+        if resources:
+            st = case[0][start_timestamp_key].timestamp() - epsilon
+            ct = case[-1][timestamp_key].timestamp() + epsilon
         for res in resources_list:
             if res in resources:
                 data[-1].append(float(len(tree_dict[res][st:ct])))
@@ -255,11 +256,11 @@ def work_in_progress(log: EventLog, parameters: Optional[Dict[Union[str, Paramet
     default_not_present = exec_utils.get_param_value(Parameters.DEFAULT_NOT_PRESENT, parameters, 0)
 
     tree = IntervalTree()
-    for case in log:
+    for index, case in enumerate(log):
         if case:
             st = case[0][start_timestamp_key].timestamp() - epsilon
             ct = case[-1][timestamp_key].timestamp() + epsilon
-            tree.add(Interval(st, ct))
+            tree.add(Interval(st, ct, index))
 
     data = []
     feature_names = ["@@work_in_progress"]
diff --git a/pm4py/objects/log/util/dataframe_utils.py b/pm4py/objects/log/util/dataframe_utils.py
index c4d84ef..a2c3921 100644
--- a/pm4py/objects/log/util/dataframe_utils.py
+++ b/pm4py/objects/log/util/dataframe_utils.py
@@ -346,7 +346,7 @@ def select_string_column(df: pd.DataFrame, fea_df: pd.DataFrame, col: str,
     """
     vals = pandas_utils.format_unique(df[col].unique())
     for val in vals:
-        if val is not None:
+        if not pd.isna(val):
             filt_df_cases = pandas_utils.format_unique(df[df[col] == val][case_id_key].unique())
             new_col = col + "_" + val.encode('ascii', errors='ignore').decode('ascii').replace(" ", "")
             fea_df[new_col] = fea_df[case_id_key].isin(filt_df_cases)
@@ -526,7 +526,7 @@ def dataframe_to_activity_case_table(df: pd.DataFrame, parameters: Optional[Dict
     case_attributes = exec_utils.get_param_value(Parameters.CASE_ATTRIBUTES, parameters, set([x for x in df.columns if x.startswith(case_id_prefix)]))
     event_attributes = set([x for x in df.columns if x not in case_attributes])
 
-    activity_table = df[event_attributes.union({case_id_key})]
-    case_table = df[case_attributes.union({case_id_key})].groupby(case_id_key).first().reset_index()
+    activity_table = df[[x for x in df.columns if x in event_attributes or x == case_id_key]]
+    case_table = df[[x for x in df.columns if x in case_attributes or x == case_id_key]].groupby(case_id_key).first().reset_index()
 
     return activity_table, case_table
-- 
2.43.0


From b263568753495ffea1fb03c53e856dc52a8524c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:57 +0000
Subject: [PATCH 104/104] fix: analysis, enrichment and export functions no
 longer change the log they are given

---
 .../resource_profiles/variants/log.py          | 18 ++++++++++++------
 pm4py/analysis.py                              |  2 ++
 pm4py/objects/log/util/artificial.py           |  8 +++++++-
 pm4py/objects/ocel/util/ocel_consistency.py    |  3 +++
 pm4py/objects/ocel/util/parent_children_ref.py |  3 +++
 pm4py/ocel.py                                  | 13 ++++++++++++-
 6 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/pm4py/algo/organizational_mining/resource_profiles/variants/log.py b/pm4py/algo/organizational_mining/resource_profiles/variants/log.py
index 2985b53..c9bedc6 100644
--- a/pm4py/algo/organizational_mining/resource_profiles/variants/log.py
+++ b/pm4py/algo/organizational_mining/resource_profiles/variants/log.py
@@ -14,12 +14,13 @@
     You should have received a copy of the GNU General Public License
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
+from copy import copy
 from datetime import datetime
 from enum import Enum
 from typing import Union, Optional, Dict, Any, Tuple
 
 from pm4py.objects.conversion.log import converter
-from pm4py.objects.log.obj import EventLog, Event
+from pm4py.objects.log.obj import EventLog, Trace, Event
 from pm4py.util import exec_utils, constants, xes_constants
 from pm4py.algo.filtering.common.timestamp.timestamp_common import get_dt_from_string
 from statistics import mean
@@ -297,12 +298,17 @@ def __insert_start_from_previous_event(log: EventLog, parameters: Optional[Dict[
     start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
                                                      xes_constants.DEFAULT_START_TIMESTAMP_KEY)
 
+    new_log = EventLog(attributes=log.attributes, extensions=log.extensions, classifiers=log.classifiers,
+                       omni_present=log.omni_present, properties=log.properties)
     for trace in log:
-        for i in range(1, len(trace)):
-            trace[i][start_timestamp_key] = trace[i-1][timestamp_key]
-        trace[0][start_timestamp_key] = trace[0][timestamp_key]
-
-    return log
+        new_trace = Trace(attributes=trace.attributes, properties=trace.properties)
+        for i in range(len(trace)):
+            event = copy(trace[i])
+            event[start_timestamp_key] = trace[max(i-1, 0)][timestamp_key]
+            new_trace.append(event)
+        new_log.append(new_trace)
+
+    return new_log
 
 
 def __compute_workload(log: EventLog, resource: Optional[str] = None, activity: Optional[str] = None,
diff --git a/pm4py/analysis.py b/pm4py/analysis.py
index 53e1217..70f3df2 100644
--- a/pm4py/analysis.py
+++ b/pm4py/analysis.py
@@ -280,6 +280,7 @@ def insert_case_service_waiting_time(log: Union[EventLog, pd.DataFrame], service
 
     log = log_converter.apply(log, variant=log_converter.Variants.TO_DATA_FRAME, parameters=properties)
 
+    log = log.copy()
     return pandas_utils.insert_case_service_waiting_time(log, case_id_column=case_id_key, timestamp_column=timestamp_key, start_timestamp_column=start_timestamp_key, service_time_column=service_time_column, waiting_time_column=waiting_time_column, sojourn_time_column=sojourn_time_column)
 
 
@@ -313,6 +314,7 @@ def insert_case_arrival_finish_rate(log: Union[EventLog, pd.DataFrame], arrival_
 
     log = log_converter.apply(log, variant=log_converter.Variants.TO_DATA_FRAME, parameters=properties)
 
+    log = log.copy()
     return pandas_utils.insert_case_arrival_finish_rate(log, case_id_column=case_id_key, timestamp_column=timestamp_key, start_timestamp_column=start_timestamp_key, arrival_rate_column=arrival_rate_column, finish_rate_column=finish_rate_column)
 
 
diff --git a/pm4py/objects/log/util/artificial.py b/pm4py/objects/log/util/artificial.py
index 3fc19db..2dffa37 100644
--- a/pm4py/objects/log/util/artificial.py
+++ b/pm4py/objects/log/util/artificial.py
@@ -14,6 +14,7 @@
     You should have received a copy of the GNU General Public License
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
+from copy import copy
 from enum import Enum
 from typing import Optional, Dict, Any
 
@@ -61,7 +62,11 @@ def insert_artificial_start_end(log: EventLog, parameters: Optional[Dict[Any, An
     artificial_end_activity = exec_utils.get_param_value(Parameters.PARAM_ARTIFICIAL_END_ACTIVITY, parameters,
                                                          constants.DEFAULT_ARTIFICIAL_END_ACTIVITY)
 
-    for trace in log:
+    log0 = log
+    log = EventLog(attributes=copy(log0.attributes), extensions=copy(log0.extensions), classifiers=copy(log0.classifiers),
+                   omni_present=copy(log0.omni_present), properties=copy(log0.properties))
+    for trace0 in log0:
+        trace = copy(trace0)
         start_event = Event({activity_key: artificial_start_activity})
         end_event = Event({activity_key: artificial_end_activity})
         if trace:
@@ -71,5 +76,6 @@ def insert_artificial_start_end(log: EventLog, parameters: Optional[Dict[Any, An
                 end_event[timestamp_key] = trace[-1][timestamp_key] + datetime.timedelta(seconds=1)
         trace.insert(0, start_event)
         trace.append(end_event)
+        log.append(trace)
 
     return log
diff --git a/pm4py/objects/ocel/util/ocel_consistency.py b/pm4py/objects/ocel/util/ocel_consistency.py
index 009bc6d..bb2f6c3 100644
--- a/pm4py/objects/ocel/util/ocel_consistency.py
+++ b/pm4py/objects/ocel/util/ocel_consistency.py
@@ -15,6 +15,7 @@
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
 
+from copy import copy
 from pm4py.objects.ocel.obj import OCEL
 from typing import Optional, Dict, Any
 
@@ -48,6 +49,8 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> OCEL:
         "object_changes": ["ocel:oid"]
     }
 
+    ocel = copy(ocel)
+
     for tab in fields:
         df = getattr(ocel, tab)
         for fie in fields[tab]:
diff --git a/pm4py/objects/ocel/util/parent_children_ref.py b/pm4py/objects/ocel/util/parent_children_ref.py
index 4ed07be..f986f56 100644
--- a/pm4py/objects/ocel/util/parent_children_ref.py
+++ b/pm4py/objects/ocel/util/parent_children_ref.py
@@ -15,6 +15,7 @@
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
 
+from copy import copy
 from pm4py.objects.ocel.obj import OCEL
 from typing import Optional, Dict, Any
 
@@ -56,6 +57,8 @@ def apply(ocel: OCEL, child_obj_type: str, parent_obj_type: str, parameters: Opt
                     if obj_types[obj_id_2] == parent_obj_type:
                         parents[obj_id] = obj_id_2
 
+    ocel = copy(ocel)
+    ocel.objects = ocel.objects.copy()
     col = ocel.objects[ocel.object_id_column].map(parents)
     if parent_obj_type+"ID" not in ocel.objects.columns:
         ocel.objects[parent_obj_type+"ID"] = col
diff --git a/pm4py/ocel.py b/pm4py/ocel.py
index b496982..316a039 100644
--- a/pm4py/ocel.py
+++ b/pm4py/ocel.py
@@ -424,6 +424,8 @@ def ocel_drop_duplicates(ocel: OCEL) -> OCEL:
 
     """
     from pm4py.objects.ocel.util import filtering_utils
+    import copy
+    ocel = copy.copy(ocel)
     ocel.relations = ocel.relations.drop_duplicates(
         subset=[ocel.event_activity, ocel.event_timestamp, ocel.object_id_column])
     ocel = filtering_utils.propagate_relations_filtering(ocel)
@@ -461,6 +463,9 @@ def ocel_merge_duplicates(ocel: OCEL, have_common_object: Optional[bool]=False)
     relations = relations.groupby(ocel.event_id_column).first()["@@groupn"].to_dict()
     relations = {x: val_corr[y] for x, y in relations.items()}
 
+    ocel = copy.copy(ocel)
+    ocel.events = ocel.events.copy()
+    ocel.relations = ocel.relations.copy()
     ocel.events[ocel.event_id_column] = ocel.events[ocel.event_id_column].map(lambda x: relations.get(x, x))
     ocel.relations[ocel.event_id_column] = ocel.relations[ocel.event_id_column].map(relations)
 
@@ -490,7 +495,9 @@ def ocel_sort_by_additional_column(ocel: OCEL, additional_column: str, primary_c
         ocel = pm4py.ocel_sort_by_additional_column(ocel, 'ordering')
 
     """
-    ocel.events = pandas_utils.insert_index(ocel.events, "@@index", reset_index=False, copy_dataframe=False)
+    import copy
+    ocel = copy.copy(ocel)
+    ocel.events = pandas_utils.insert_index(ocel.events, "@@index", reset_index=False, copy_dataframe=True)
     ocel.events = ocel.events.sort_values([primary_column, additional_column, "@@index"])
     del ocel.events["@@index"]
     ocel.events = ocel.events.reset_index(drop=True)
@@ -514,7 +521,11 @@ def ocel_add_index_based_timedelta(ocel: OCEL) -> OCEL:
         ocel = pm4py.ocel_add_index_based_timedelta(ocel)
 
     """
+    import copy
     from datetime import timedelta
+    ocel = copy.copy(ocel)
+    ocel.events = ocel.events.copy()
+    ocel.relations = ocel.relations.copy()
     eids = ocel.events[ocel.event_id_column].to_numpy().tolist()
     eids = {eids[i]: timedelta(milliseconds=i) for i in range(len(eids))}
     ocel.events["@@timedelta"] = ocel.events[ocel.event_id_column].map(eids)
-- 
2.43.0

