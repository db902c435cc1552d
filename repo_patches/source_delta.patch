From a7707fd289565a67eefa8701d93dab474dc7aa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 01/36] fix: use collections.abc.Sequence, so that input-driven
 evolutions run on Python 3.10+

---
 netomaton/evolution.py | 3 ++-
 netomaton/utils.py     | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index 0272482..13527b6 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -1,4 +1,5 @@
 import collections
+from collections.abc import Sequence
 from enum import Enum
 from .state import State
 
@@ -418,7 +419,7 @@ def _get_input_function(timesteps=None, input=None):
 
 
 def _is_indexable(obj):
-    return isinstance(obj, collections.Sequence)
+    return isinstance(obj, Sequence)
 
 
 class _TimestepInputFunction:
diff --git a/netomaton/utils.py b/netomaton/utils.py
index 15eb8ee..a4666bc 100644
--- a/netomaton/utils.py
+++ b/netomaton/utils.py
@@ -4,7 +4,7 @@ import numpy as np
 import matplotlib.pyplot as plt
 import matplotlib.animation as animation
 import matplotlib.collections as mcoll
-import collections
+from collections.abc import Sequence
 from .state import State
 from .substitution_system import SubstitutionSystem
 try:
@@ -273,7 +273,7 @@ def plot1D(x, y, color=None, label=None, xlabel=None, ylabel=None, xlim=None, yl
     def _get_item(items, i):
         if isinstance(items, str):
             return items
-        if isinstance(items, collections.Sequence):
+        if isinstance(items, Sequence):
             return items[i]
         return items
 
-- 
2.43.0


From fbaae2126fb6fe180651d3b96a6ee4e460242319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 02/36] fix: don't freeze the neighbourhoods after nodes come
 or go when there is a topology rule

---
 netomaton/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index 13527b6..d576148 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -205,7 +205,7 @@ def evolve(network, initial_conditions=None, activity_rule=None, timesteps=None,
                                                            memoize, memo_table, neighbourhood_map, memoization_key)
             curr_network = evolve_topology(topology_rule, t, curr_activities, prev_network,
                                            trajectory, copy_network, persist_network, added_nodes, removed_nodes)
-            if added_nodes or removed_nodes:
+            if (added_nodes or removed_nodes) and topology_rule is None:
                 # re-build the neighbourhood map, since the network has changed
                 neighbourhood_map = _get_neighbourhood_map(curr_network)
 
-- 
2.43.0


From 8fd3a28bc4b2fb08914d02ac4fe919273769e35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 03/36] fix: don't perturb a node that removed itself

---
 netomaton/evolution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index d576148..2266114 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -285,9 +285,9 @@ def do_activity_rule(t, inp, curr_activities, prev_activities, network, activity
         if node_label not in ctx.removed_nodes:
             curr_activities[node_label] = new_activity
 
-        if perturbation is not None:
-            pctx = PerturbationContext(node_label, curr_activities[node_label], t, node_in)
-            curr_activities[node_label] = perturbation(pctx)
+            if perturbation is not None:
+                pctx = PerturbationContext(node_label, curr_activities[node_label], t, node_in)
+                curr_activities[node_label] = perturbation(pctx)
 
     return added_nodes, removed_nodes
 
-- 
2.43.0


From 1bc63e00ac1aaff4a9ef2190b9c92290f853d3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 04/36] fix: drop the activity of a node that was removed by
 another node

---
 netomaton/evolution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index 2266114..3d544e1 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -247,6 +247,9 @@ def evolve_activities(activity_rule, t, inp, curr_activities, prev_activities, t
                                                       activity_rule, past, perturbation, memoize, memoization_table,
                                                       neighbourhood_map, memoization_key)
 
+        for node_label in removed_nodes:
+            curr_activities.pop(node_label, None)
+
         if added_nodes:
             for state, outgoing_links, node_label in added_nodes:
                 curr_activities[node_label] = check_np(state)
-- 
2.43.0


From 44061a3a98ce89b462acc16bda0dd0def04c2b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 05/36] fix: allow a node to be removed by more than one node
 in the same timestep

---
 netomaton/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index 3d544e1..d2e80c9 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -365,7 +365,7 @@ def evolve_topology(topology_rule, t, activities, prev_network, trajectory, copy
         network = network.copy()
 
         # adjust connectivity map according to node deletions and insertions
-        for node_label in removed_nodes:
+        for node_label in dict.fromkeys(removed_nodes):
             network.remove_node(node_label)
 
         for activity, outgoing_links, node_label in added_nodes:
-- 
2.43.0


From 7e5422565dfbe83322f58f68e6e5051b2db1f756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 06/36] fix: keep the past activities available when the
 activities aren't persisted

---
 netomaton/evolution.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index d2e80c9..b449b44 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -189,13 +189,16 @@ def evolve(network, initial_conditions=None, activity_rule=None, timesteps=None,
     if topology_rule is None:
         neighbourhood_map = _get_neighbourhood_map(network)
 
+    # the activities that precede the last timestep, most recent last, when past conditions are given
+    past_window = collections.deque(past_conditions, maxlen=len(past_conditions)) if past_conditions else None
+
     t = 1
     while True:
         inp = input_fn(t, prev_activities, prev_network)
         if inp is None:
             break
 
-        past = _get_past_activities(past_conditions, trajectory, t)
+        past = _get_past_activities(past_window)
         curr_activities = {}
         trajectory[t] = State(compression=compression)
 
@@ -227,6 +230,8 @@ def evolve(network, initial_conditions=None, activity_rule=None, timesteps=None,
         else:
             raise Exception("unsupported update_order: %s" % update_order)
 
+        if past_window is not None:
+            past_window.append(prev_activities)
         prev_activities = curr_activities
         prev_network = curr_network
 
@@ -386,20 +391,15 @@ def evolve_topology(topology_rule, t, activities, prev_network, trajectory, copy
     return network
 
 
-def _get_past_activities(past_conditions, trajectory, t):
-    if past_conditions and len(past_conditions) > 0:
-        past_activities = [None]*len(past_conditions)
-        last_t = t - 1
-        for i in range(len(past_conditions)-1, -1, -1):
-
-            curr_past_cond = past_conditions[last_t-1] if last_t < 1 else trajectory[last_t-1].activities
-            if not isinstance(curr_past_cond, dict) and isinstance(curr_past_cond, (list, np.ndarray)):
-                curr_past_cond = {i: v for i, v in enumerate(curr_past_cond)}
-
-            past_activities[i] = curr_past_cond
-            last_t -= 1
-        return past_activities
-    return None
+def _get_past_activities(past_window):
+    if past_window is None:
+        return None
+    past_activities = []
+    for past_cond in past_window:
+        if not isinstance(past_cond, dict) and isinstance(past_cond, (list, np.ndarray)):
+            past_cond = {i: v for i, v in enumerate(past_cond)}
+        past_activities.append(past_cond)
+    return past_activities
 
 
 def _get_neighbourhood_map(network):
-- 
2.43.0


From 36bb895db7601cf4b4f56441804228b3b42c4589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 07/36] fix: end the evolution when fewer than one timestep is
 requested

---
 netomaton/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index b449b44..aabc322 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -430,7 +430,7 @@ class _TimestepInputFunction:
         self._num_steps = num_steps
 
     def __call__(self, t, activities, network):
-        if t == self._num_steps:
+        if t >= self._num_steps:
             return None
         return "__timestep__"
 
-- 
2.43.0


From d6966050ba6edfc11f5f48627e92e472c323b8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 08/36] fix: convert NumPy scalars in dict initial conditions
 and perturbation results, and copy the former

---
 netomaton/evolution.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index aabc322..e631be4 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -167,6 +167,9 @@ def evolve(network, initial_conditions=None, activity_rule=None, timesteps=None,
     # convert initial_conditions to map, if it isn't already
     if not isinstance(initial_conditions, dict) and isinstance(initial_conditions, (list, np.ndarray)):
         initial_conditions = {i: check_np(v) for i, v in enumerate(initial_conditions)}
+    elif isinstance(initial_conditions, dict):
+        # copy, so that the recorded initial state doesn't share the caller's dict
+        initial_conditions = {i: check_np(v) for i, v in initial_conditions.items()}
 
     input_fn = _get_input_function(timesteps, input)
 
@@ -295,7 +298,7 @@ def do_activity_rule(t, inp, curr_activities, prev_activities, network, activity
 
             if perturbation is not None:
                 pctx = PerturbationContext(node_label, curr_activities[node_label], t, node_in)
-                curr_activities[node_label] = perturbation(pctx)
+                curr_activities[node_label] = check_np(perturbation(pctx))
 
     return added_nodes, removed_nodes
 
-- 
2.43.0


From a8c471666a000950701f444aff310595a6576643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 09/36] fix: leave the garbage collector as it was after
 decompressing, also when decompressing fails

---
 netomaton/state.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/netomaton/state.py b/netomaton/state.py
index 5a4723e..190b172 100644
--- a/netomaton/state.py
+++ b/netomaton/state.py
@@ -1,5 +1,6 @@
 import msgpack
 import gc
+import threading
 import networkx as nx
 
 
@@ -322,6 +323,10 @@ class State:
             self._network = n.compress() if self._compression else n
 
 
+# the garbage collector is shared by all the threads of the process
+_gc_lock = threading.RLock()
+
+
 class _Compressor:
     def __init__(self):
         pass
@@ -346,7 +351,11 @@ class _Compressor:
 
         :return: a decompressed object
         """
-        gc.disable()
-        d = msgpack.unpackb(packed, strict_map_key=False)
-        gc.enable()
-        return d
\ No newline at end of file
+        with _gc_lock:
+            gc_was_enabled = gc.isenabled()
+            gc.disable()
+            try:
+                return msgpack.unpackb(packed, strict_map_key=False)
+            finally:
+                if gc_was_enabled:
+                    gc.enable()
\ No newline at end of file
-- 
2.43.0


From 00cee95af8a2bfb66399b0ae02867f5141540186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 10/36] fix: record empty activities and empty networks as
 such, instead of as None

---
 netomaton/evolution.py | 2 +-
 netomaton/state.py     | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index e631be4..c01e6c5 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -385,7 +385,7 @@ def evolve_topology(topology_rule, t, activities, prev_network, trajectory, copy
         if copy_network:
             network = network.copy()
         network = topology_rule(TopologyContext(network, activities, t))
-        if not network:
+        if network is None:
             raise Exception("topology rule must return a network")
 
     if persist_network:
diff --git a/netomaton/state.py b/netomaton/state.py
index 190b172..f023715 100644
--- a/netomaton/state.py
+++ b/netomaton/state.py
@@ -304,22 +304,22 @@ class State:
 
     @property
     def activities(self):
-        if self._activities:
+        if self._activities is not None:
             return _Compressor.decompress(self._activities) if self._compression else self._activities
 
     @activities.setter
     def activities(self, a):
-        if a:
+        if a is not None:
             self._activities = _Compressor.compress(a) if self._compression else a
 
     @property
     def network(self):
-        if self._network:
+        if self._network is not None:
             return Network.decompress(self._network) if self._compression else self._network
 
     @network.setter
     def network(self, n):
-        if n:
+        if n is not None:
             self._network = n.compress() if self._compression else n
 
 
-- 
2.43.0


From 757953dbde7fdc853742bb9fde49ab2c937be996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 11/36] fix: shuffle the given update order, instead of
 replacing it with the nodes 0 to n-1

---
 netomaton/asynchronous_rule.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/netomaton/asynchronous_rule.py b/netomaton/asynchronous_rule.py
index 2016ae7..22108f2 100644
--- a/netomaton/asynchronous_rule.py
+++ b/netomaton/asynchronous_rule.py
@@ -23,18 +23,20 @@ class AsynchronousRule:
         if update_order is None and n is None:
             raise Exception("either update_order or n must be specified")
         self._activity_rule = activity_rule
+        self._nodes = list(update_order) if update_order is not None else list(range(n))
         if update_order is not None:
             self._update_order = update_order
         else:
-            self._shuffle_update_order(n)
+            self._shuffle_update_order()
         self._curr = 0
         self._num_applied = 0
         self._randomize_each_cycle = randomize_each_cycle
 
-    def _shuffle_update_order(self, n):
-        self._update_order = np.arange(n)
-        np.random.shuffle(self._update_order)
-        self._update_order = self._update_order.tolist()
+    def _shuffle_update_order(self):
+        # the given update order doesn't necessarily contain the nodes 0 to n-1
+        indices = np.arange(len(self._nodes))
+        np.random.shuffle(indices)
+        self._update_order = [self._nodes[i] for i in indices]
 
     def __call__(self, ctx):
         if ctx.node_label in self._update_order:
@@ -53,4 +55,4 @@ class AsynchronousRule:
             self._curr = (self._curr + 1) % len(self._update_order)
             self._num_applied = 0
             if self._randomize_each_cycle:
-                self._shuffle_update_order(len(self._update_order))
+                self._shuffle_update_order()
-- 
2.43.0


From 7a89d1a9ef2680889a5f3744776b9e9db7a53a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 12/36] fix: break ties at random in the majority rule on
 Python 3.8+, where mode() no longer raises

---
 netomaton/rules/activity_rule.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/netomaton/rules/activity_rule.py b/netomaton/rules/activity_rule.py
index 4d11ea7..cd3d8a2 100644
--- a/netomaton/rules/activity_rule.py
+++ b/netomaton/rules/activity_rule.py
@@ -1,4 +1,4 @@
-from statistics import mode, StatisticsError
+from collections import Counter
 import numpy as np
 
 
@@ -40,11 +40,11 @@ def majority_rule(ctx):
 
     :return: the new activity for the node with the given neighbourhood
     """
-    try:
-        return mode(ctx.neighbourhood_activities)
-    except StatisticsError:
-        # a StatisticsError is raised if there is a tie, and there is no single most common element
+    most_common = Counter(ctx.neighbourhood_activities).most_common(2)
+    if len(most_common) == 2 and most_common[0][1] == most_common[1][1]:
+        # there is a tie, and there is no single most common element
         return np.random.choice(ctx.neighbourhood_activities)
+    return most_common[0][0]
 
 
 def bits_to_int(bits):
-- 
2.43.0


From 9cf48df002335f52c5baaa3a9660b6063b166a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 13/36] fix: accept 0 as the seed of the fungal growth model

---
 netomaton/fungal_growth_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/fungal_growth_model.py b/netomaton/fungal_growth_model.py
index c1adeb7..5f7e1b9 100644
--- a/netomaton/fungal_growth_model.py
+++ b/netomaton/fungal_growth_model.py
@@ -29,7 +29,7 @@ class FungalGrowthModel:
         """
         self._R_E = R_E
         self._d = 4  # the maximum node degree allowable
-        if seed:
+        if seed is not None:
             np.random.seed(seed)
         self._verbose = verbose
 
-- 
2.43.0


From 3357e938b623b2e05e76b0f3466f46c303b8b2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 14/36] fix: make the joint entropy independent of the hash
 seed

---
 netomaton/analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/netomaton/analysis.py b/netomaton/analysis.py
index f8b2430..8a8a0ed 100644
--- a/netomaton/analysis.py
+++ b/netomaton/analysis.py
@@ -59,8 +59,8 @@ def joint_shannon_entropy(stringX, stringY):
     X = np.array(list(stringX))
     Y = np.array(list(stringY))
     joint_symbol_probabilities = []
-    for x in set(X):
-        for y in set(Y):
+    for x in dict.fromkeys(X):
+        for y in dict.fromkeys(Y):
             joint_symbol_probabilities.append(np.mean(np.logical_and(X == x, Y == y)))
     return sum(-p * np.log2(p) for p in joint_symbol_probabilities if p != 0)
 
-- 
2.43.0


From 615637af9b43bf879d8631d3fa83d2b62689708c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 15/36] fix: don't add the constants to the caller's
 substitution rules

---
 netomaton/substitution_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/substitution_system.py b/netomaton/substitution_system.py
index a561ae2..e8fff19 100644
--- a/netomaton/substitution_system.py
+++ b/netomaton/substitution_system.py
@@ -4,7 +4,7 @@ from .state import Network
 
 class SubstitutionSystem:
     def __init__(self, axiom, rules, constants=None):
-        self._rules = rules
+        self._rules = dict(rules)
         self._constants = constants if constants else []
         self._rules.update({c: c for c in self._constants})
         self._neighbourhood_size = self._get_neighbourhood_size(rules)
-- 
2.43.0


From a48af18ba9fb3f0e8f82e3b7c81dfc8e2a35b591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 16/36] fix: don't link to nodes of an earlier evolution when a
 substitution system is evolved again

---
 netomaton/substitution_system.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/netomaton/substitution_system.py b/netomaton/substitution_system.py
index e8fff19..a950c1d 100644
--- a/netomaton/substitution_system.py
+++ b/netomaton/substitution_system.py
@@ -13,7 +13,7 @@ class SubstitutionSystem:
         self._network = self._init_network(len(self._initial_conditions))
         self._last_node_index = len(self._initial_conditions) - 1
         self._num_nodes_added = 0
-        self._last_timestep = 0
+        self._last_activities = None
 
     def _get_neighbourhood_size(self, rules):
         neighbourhood_size = len(next(iter(rules)))
@@ -58,9 +58,11 @@ class SubstitutionSystem:
         #  carry the state information
 
     def _update_last_timestep(self, ctx):
-        if self._last_timestep != ctx.timestep:
+        # the nodes of a timestep share the same activities; comparing the timestep number isn't enough, since another
+        #  evolution could begin at the same timestep the last one ended with
+        if self._last_activities is not ctx.activities:
             self._num_nodes_added = 0
-        self._last_timestep = ctx.timestep
+        self._last_activities = ctx.activities
 
     def _get_state(self, ctx):
         state = ""
-- 
2.43.0


From 118549eb97a8964202c9b3fc8cf3dcdaf0f4dfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 17/36] fix: preserve the order of ten or more relations in the
 Wolfram physics model

---
 netomaton/wolfram_physics_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/wolfram_physics_model.py b/netomaton/wolfram_physics_model.py
index 36be62e..da1dbb8 100644
--- a/netomaton/wolfram_physics_model.py
+++ b/netomaton/wolfram_physics_model.py
@@ -70,7 +70,7 @@ class WolframPhysicsModel:
                 merged_hyperedges[edge_label] = tuple(merged)
 
         edges.update(merged_hyperedges)
-        config = [edges[label] for label in sorted(edges)]  # sort so that we can preserve the order of the relations
+        config = [edges[label] for label in sorted(edges, key=int)]  # sort so that we can preserve the order of the relations
 
         return config
 
-- 
2.43.0


From e327d726178f76c074dadef7c6c42dad7a993e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 18/36] fix: draw the timestep the animation asks for, so that
 saved animations begin with the first

---
 netomaton/hexplot.py | 10 +++-------
 netomaton/utils.py   | 12 ++++--------
 2 files changed, 7 insertions(+), 15 deletions(-)

diff --git a/netomaton/hexplot.py b/netomaton/hexplot.py
index 3a54535..678c35a 100644
--- a/netomaton/hexplot.py
+++ b/netomaton/hexplot.py
@@ -79,12 +79,8 @@ def animate_hex(trajectory, title='', shape=None, save=False, interval=50, color
     p = PatchCollection(patches, match_original=True, cmap=m.get_cmap())
     ax.add_collection(p)
 
-    i = {'index': 0}
-    def update(*args):
-        i['index'] += 1
-        if i['index'] == len(activities):
-            i['index'] = 0
-        new_triples = _get_triples(activities[i['index']])
+    def update(index):
+        new_triples = _get_triples(activities[index])
         p.set_array(np.array([tr[2] for tr in new_triples]))
         return p,
 
@@ -92,7 +88,7 @@ def animate_hex(trajectory, title='', shape=None, save=False, interval=50, color
     plt.gca().invert_yaxis()
     plt.title(title)
 
-    ani = animation.FuncAnimation(fig, update, interval=interval, blit=True, save_count=len(activities))
+    ani = animation.FuncAnimation(fig, update, frames=len(activities), interval=interval, blit=True)
     if save:
         ani.save('evolved.gif', dpi=80, writer="imagemagick")
 
diff --git a/netomaton/utils.py b/netomaton/utils.py
index a4666bc..08d2695 100644
--- a/netomaton/utils.py
+++ b/netomaton/utils.py
@@ -112,16 +112,12 @@ def animate_activities(trajectory_or_activities, title='', shape=None, save=Fals
         baseheight, basewidth = im.get_size()
         fig.set_size_inches(basewidth*scale, baseheight*scale, forward=True)
 
-    i = {'index': 0}
-    def updatefig(*args):
-        i['index'] += 1
-        if i['index'] == len(activities):
-            i['index'] = 0
-        im.set_array(activities[i['index']])
+    def updatefig(index):
+        im.set_array(activities[index])
         if with_timestep:
-            title_text.set_text("timestep: %s" % (i['index']+1))
+            title_text.set_text("timestep: %s" % (index+1))
         return im, grid, title_text
-    ani = animation.FuncAnimation(fig, updatefig, interval=interval, blit=blit, save_count=len(activities))
+    ani = animation.FuncAnimation(fig, updatefig, frames=len(activities), interval=interval, blit=blit)
     if save:
         ani.save('evolved.gif', dpi=dpi, writer="imagemagick")
     plt.show()
-- 
2.43.0


From 10af1ed68ee9f1134f7a0bb93278fbbf97577b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 19/36] fix: close the HTML file when writing it fails

---
 netomaton/vis/vis_utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/netomaton/vis/vis_utils.py b/netomaton/vis/vis_utils.py
index fef9262..cdac1bb 100644
--- a/netomaton/vis/vis_utils.py
+++ b/netomaton/vis/vis_utils.py
@@ -31,9 +31,8 @@ def configuration_to_nx(config):
 
 def show_network(G, name="out.html", is_notebook=False):
     html = get_html(G)
-    o = open(name, "w")  # TODO write tempfile if no name is provided?
-    o.write(html)
-    o.close()
+    with open(name, "w") as o:  # TODO write tempfile if no name is provided?
+        o.write(html)
     if not is_notebook:
         webbrowser.open('file://' + os.path.realpath(name))
     # TODO if we are in a notebook, then there are some extra steps to render the html
-- 
2.43.0


From 769dc9729564082e7c32408f452e977aa93ea5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 20/36] fix: convert NumPy scalars in adjacency matrices to
 Python numbers, so that networks can be copied

---
 netomaton/topology/networks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/topology/networks.py b/netomaton/topology/networks.py
index 2410044..a52fdf0 100644
--- a/netomaton/topology/networks.py
+++ b/netomaton/topology/networks.py
@@ -87,7 +87,7 @@ def from_adjacency_matrix(adj):
     for i, row in enumerate(adj):
         for j, val in enumerate(row):
             if val != 0:
-                network.add_edge(i, j, weight=val)
+                network.add_edge(i, j, weight=ntm.check_np(val))
     return network
 
 
-- 
2.43.0


From 4f778149075101b38fecf3ed4d350b13e4a5b47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 21/36] fix: include the unconnected nodes of an adjacency
 matrix in the network

---
 netomaton/topology/networks.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/netomaton/topology/networks.py b/netomaton/topology/networks.py
index a52fdf0..158bf2d 100644
--- a/netomaton/topology/networks.py
+++ b/netomaton/topology/networks.py
@@ -88,6 +88,9 @@ def from_adjacency_matrix(adj):
         for j, val in enumerate(row):
             if val != 0:
                 network.add_edge(i, j, weight=ntm.check_np(val))
+    # nodes without any connection are nodes too
+    for i in range(len(adj)):
+        network.add_node(i)
     return network
 
 
-- 
2.43.0


From 8671f413133a36384a4e49c49e6307a7553aa5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:42 +0000
Subject: [PATCH 22/36] fix: animate_network draws on its own axes, not on
 whichever figure is current

---
 netomaton/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/netomaton/utils.py b/netomaton/utils.py
index 08d2695..b069d43 100644
--- a/netomaton/utils.py
+++ b/netomaton/utils.py
@@ -192,15 +192,15 @@ def animate_network(trajectory, save=False, interval=50, dpi=80, layout="shell",
         state_layout = layout[i] if type(layout) == list or type(layout) == tuple else layout
 
         if state_layout == "shell":
-            nx.draw_shell(G, with_labels=with_labels, node_color=color, node_size=node_size, arrows=with_arrows)
+            nx.draw_shell(G, with_labels=with_labels, node_color=color, node_size=node_size, arrows=with_arrows, ax=ax)
         elif state_layout == "spring":
-            nx.draw_spring(G, with_labels=with_labels, node_color=color, node_size=node_size, arrows=with_arrows)
+            nx.draw_spring(G, with_labels=with_labels, node_color=color, node_size=node_size, arrows=with_arrows, ax=ax)
         elif state_layout == "planar":
-            nx.draw_planar(G, with_labels=with_labels, node_color=color, node_size=node_size, arrows=with_arrows)
+            nx.draw_planar(G, with_labels=with_labels, node_color=color, node_size=node_size, arrows=with_arrows, ax=ax)
         elif state_layout == "kamada-kawai":
-            nx.draw_kamada_kawai(G, with_labels=with_labels, node_color=color, node_size=node_size, arrows=with_arrows)
+            nx.draw_kamada_kawai(G, with_labels=with_labels, node_color=color, node_size=node_size, arrows=with_arrows, ax=ax)
         elif isinstance(state_layout, dict):
-            nx.draw(G, pos=state_layout, with_labels=with_labels, node_color=color, node_size=node_size, arrows=with_arrows)
+            nx.draw(G, pos=state_layout, with_labels=with_labels, node_color=color, node_size=node_size, arrows=with_arrows, ax=ax)
         else:
             raise Exception("unsupported layout: %s" % state_layout)
 
-- 
2.43.0


From f71e293a21cc7853c0d55fd2b1f834bf6145afa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:42 +0000
Subject: [PATCH 23/36] fix: turtle animations show the drawing so far in every
 frame, also the last and after a save

---
 netomaton/turtle.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/netomaton/turtle.py b/netomaton/turtle.py
index b11664c..f946192 100644
--- a/netomaton/turtle.py
+++ b/netomaton/turtle.py
@@ -108,16 +108,14 @@ class Turtle:
         max_y += 0.05*(max_y - min_y)
         min_y -= 0.05*(max_y - min_y)
 
+        segments = []
+
         def update(t):
-            plt.plot(self.trajectory[t][0], self.trajectory[t][1], marker=marker, color="black")
-            if t == len(self.trajectory) - 1 and repeat:
-                ax.clear()
-                ax.xaxis.set_ticklabels([])
-                ax.yaxis.set_ticklabels([])
-                ax.set_xticks([])
-                ax.set_yticks([])
-                plt.xlim(min_x, max_x)
-                plt.ylim(min_y, max_y)
+            # show exactly the segments up to and including the t-th, whatever was shown before
+            while len(segments) > t + 1:
+                segments.pop().remove()
+            for x, y in self.trajectory[len(segments):t + 1]:
+                segments.extend(ax.plot(x, y, marker=marker, color="black"))
 
         ani = animation.FuncAnimation(fig, update, frames=len(self.trajectory), interval=interval,
                                       save_count=len(self.trajectory), repeat=repeat)
-- 
2.43.0


From d54cf43b2a660f8b18956633787ceca3e9734b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:00 +0000
Subject: [PATCH 24/36] fix: quote the labels in the exported page that are not
 numbers

---
 netomaton/vis/vis_utils.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/netomaton/vis/vis_utils.py b/netomaton/vis/vis_utils.py
index cdac1bb..a22704d 100644
--- a/netomaton/vis/vis_utils.py
+++ b/netomaton/vis/vis_utils.py
@@ -1,3 +1,5 @@
+import json
+import numbers
 import os
 import webbrowser
 import networkx as nx
@@ -38,9 +40,14 @@ def show_network(G, name="out.html", is_notebook=False):
     # TODO if we are in a notebook, then there are some extra steps to render the html
 
 
+def _to_js(label):
+    # numbers can be written as they are, but any other label has to be a string
+    return str(label) if isinstance(label, numbers.Real) and not isinstance(label, bool) else json.dumps(str(label))
+
+
 def get_html(G):
 
-    nodes = "[" + ",".join(["{id: " + str(n) + ", label: " + str(n) + ", shape: \"dot\", size: 10}" for n in G.nodes]) + "]"
+    nodes = "[" + ",".join(["{id: " + _to_js(n) + ", label: " + _to_js(n) + ", shape: \"dot\", size: 10}" for n in G.nodes]) + "]"
 
     edges = []
     self_references = {}
@@ -51,7 +58,7 @@ def get_html(G):
                 self_references[(e[0], e[1])] = 0
             self_references[(e[0], e[1])] += 1
             self_reference = ", selfReferenceSize: %s" % (15 + self_references[(e[0], e[1])]*5)
-        edges.append("{from: %s, to: %s, arrows: \"to\", weight: 1%s}" % (str(e[0]), str(e[1]), self_reference))
+        edges.append("{from: %s, to: %s, arrows: \"to\", weight: 1%s}" % (_to_js(e[0]), _to_js(e[1]), self_reference))
     edges = "[" + ",".join(edges) + "]"
 
     ret = """<html><head>
-- 
2.43.0


From 0a251d1a1be0036424498e96498363505b8fa5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:39 +0000
Subject: [PATCH 25/36] fix: update none of the edges of a connection when one
 of the given indices doesn't exist

---
 netomaton/state.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/netomaton/state.py b/netomaton/state.py
index f023715..c8887f8 100644
--- a/netomaton/state.py
+++ b/netomaton/state.py
@@ -70,13 +70,13 @@ class Network:
     def update_edge(self, i, j, indices=None, **attr):
         if j not in self._network or i not in self._network[j]["incoming"]:
             raise Exception("edge does not exist")
-        if indices is None:
-            # update all edges in this connection
-            for edge in self._network[j]["incoming"][i]:
-                edge.update(attr)
-        else:
-            for k in indices:
-                self._network[j]["incoming"][i][k].update(attr)
+        edges = self._network[j]["incoming"][i]
+        if indices is not None:
+            # look up all the edges first, so that nothing is updated if one of them doesn't exist
+            edges = [edges[k] for k in indices]
+        # by default, update all edges in this connection
+        for edge in edges:
+            edge.update(attr)
 
     def remove_node(self, node_label):
         for i, v in self._network[node_label]["incoming"].items():
-- 
2.43.0


From 242c59ea4e21fbfba37d8f6bc0e02803cc1c40f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:26 +0000
Subject: [PATCH 26/36] fix: bound the temporal distance by the number of
 timesteps, not of nodes

---
 netomaton/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/analysis.py b/netomaton/analysis.py
index 8a8a0ed..0f8511f 100644
--- a/netomaton/analysis.py
+++ b/netomaton/analysis.py
@@ -105,7 +105,7 @@ def average_mutual_information(trajectory_or_activities, temporal_distance=1):
     else:
         activities = trajectory_or_activities
     num_cols = len(activities[0])
-    if not (0 < temporal_distance < num_cols):
+    if not (0 < temporal_distance < len(activities)):
         raise Exception("the temporal distance must be greater than 0 and less than the number of time steps")
     mutual_informations = []
     for i in range(0, num_cols):
-- 
2.43.0


From 0856b2533b2137241a5ac92a620e329a7f4b6f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:26 +0000
Subject: [PATCH 27/36] fix: give every node of a lattice a self-loop if asked
 to, and keep a node without links

---
 netomaton/topology/networks.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/netomaton/topology/networks.py b/netomaton/topology/networks.py
index 158bf2d..55d0fcf 100644
--- a/netomaton/topology/networks.py
+++ b/netomaton/topology/networks.py
@@ -61,10 +61,14 @@ def lattice(dim, periodic=False, self_loops=False, first_label=0):
     G = nx.convert_node_labels_to_integers(G, first_label=first_label)
     network = ntm.Network()
     for edge in G.edges:
-        if edge[0] == edge[1] and not self_loops:
+        if edge[0] == edge[1]:
             continue
         network.add_edge(edge[1], edge[0])
         network.add_edge(edge[0], edge[1])
+    for node in G.nodes:
+        network.add_node(node)
+        if self_loops:
+            network.add_edge(node, node)
     return network
 
 
-- 
2.43.0


From 6e5dad9514b2a552926e8e74cc840de8496ac9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:26 +0000
Subject: [PATCH 28/36] fix: convert NumPy labels of a disconnected network to
 Python ones, so that it can be copied

---
 netomaton/topology/networks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/topology/networks.py b/netomaton/topology/networks.py
index 55d0fcf..fa938df 100644
--- a/netomaton/topology/networks.py
+++ b/netomaton/topology/networks.py
@@ -82,7 +82,7 @@ def disconnected(nodes):
     """
     network = ntm.Network(n=nodes) if isinstance(nodes, int) else ntm.Network()
     if isinstance(nodes, (list, np.ndarray)):
-        [network.add_node(n) for n in nodes]
+        [network.add_node(ntm.check_np(n)) for n in nodes]
     return network
 
 
-- 
2.43.0


From f2e94a20fbcd3a5f641b3c19bc2c9dc18acc157a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:04 +0000
Subject: [PATCH 29/36] fix: look up cell states above 9 in rule tables the way
 random_rule_table writes them

---
 netomaton/rule_tables.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/netomaton/rule_tables.py b/netomaton/rule_tables.py
index a1ae947..dd78a65 100644
--- a/netomaton/rule_tables.py
+++ b/netomaton/rule_tables.py
@@ -15,6 +15,9 @@ def table_rule(table):
     """
     def _rule(ctx):
         state_repr = ''.join(str(x) for x in ctx.neighbourhood_activities)
+        if not state_repr in table:
+            # random_rule_table writes a state in base k, i.e. with a letter for each cell state above 9
+            state_repr = ''.join(np.base_repr(x, 36) if isinstance(x, int) else str(x) for x in ctx.neighbourhood_activities)
         if not state_repr in table:
             raise Exception("could not find state '%s' in table" % state_repr)
         return table[state_repr]
-- 
2.43.0


From 3e19e4e4218571cd35fce80771e529a5e075e227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:32 +0000
Subject: [PATCH 30/36] fix: keep edge attributes named 'key' when converting a
 Network to NetworkX

---
 netomaton/state.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/netomaton/state.py b/netomaton/state.py
index c8887f8..f7204ea 100644
--- a/netomaton/state.py
+++ b/netomaton/state.py
@@ -210,8 +210,8 @@ class Network:
                 if key not in self._new_node():
                     atts[key] = self._network[node][key]
             G.add_node(node, **atts)
-        for i, j, data in self.edges:
-            G.add_edge(i, j, **data)
+        # not G.add_edge(i, j, **data), which would use an attribute named 'key' as the key of the edge
+        G.add_edges_from((i, j, data) for i, j, data in self.edges)
         return G
 
     def to_adjacency_matrix(self, nodelist=None, sum_multiedges=True, weight="weight"):
-- 
2.43.0


From dc29f50b36fe89ce6304dce11d08a829a30f1ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:43 +0000
Subject: [PATCH 31/36] fix: animate_hex uses the given vmin and vmax

---
 netomaton/hexplot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/hexplot.py b/netomaton/hexplot.py
index 678c35a..de0a507 100644
--- a/netomaton/hexplot.py
+++ b/netomaton/hexplot.py
@@ -76,7 +76,7 @@ def animate_hex(trajectory, title='', shape=None, save=False, interval=50, color
                              orientation=np.radians(60), edgecolor=edgecolor)
         patches.append(hex)
 
-    p = PatchCollection(patches, match_original=True, cmap=m.get_cmap())
+    p = PatchCollection(patches, match_original=True, cmap=m.get_cmap(), norm=m.norm)
     ax.add_collection(p)
 
     def update(index):
-- 
2.43.0


From 13416b16f4cccd0fe76fc7f25f83866570d4ed89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:13 +0000
Subject: [PATCH 32/36] fix: plot1D accepts one pair of limits for the y-axis

---
 netomaton/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/netomaton/utils.py b/netomaton/utils.py
index b069d43..de19868 100644
--- a/netomaton/utils.py
+++ b/netomaton/utils.py
@@ -294,7 +294,8 @@ def plot1D(x, y, color=None, label=None, xlabel=None, ylabel=None, xlim=None, yl
         if xlim:
             current_axis.set_xlim(xlim)
         if ylim:
-            current_axis.set_ylim(_get_item(ylim, i % 2))
+            # either the limits of every y-axis, or a list with those of each
+            current_axis.set_ylim(_get_item(ylim, i % 2) if isinstance(ylim[0], Sequence) else ylim)
         if legend:
             current_axis.legend(**legend)
 
-- 
2.43.0


From cbf99a891dc8b23b0fda44148faf24087fd2f48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:13 +0000
Subject: [PATCH 33/36] fix: plot1D does not drop the label 0

---
 netomaton/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/utils.py b/netomaton/utils.py
index de19868..4c1027d 100644
--- a/netomaton/utils.py
+++ b/netomaton/utils.py
@@ -279,7 +279,7 @@ def plot1D(x, y, color=None, label=None, xlabel=None, ylabel=None, xlim=None, yl
     for i, y_series in enumerate(y):
         current_axis = axes[current_axis_idx % len(axes)]
         plot_args = {}
-        if label:
+        if label or label == 0:
             plot_args["label"] = _get_item(label, i)
         if color:
             plot_args["color"] = _get_item(color, i)
-- 
2.43.0


From 6e889dc247b9840513a07d83ca777c75b07b16ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:13 +0000
Subject: [PATCH 34/36] fix: plot_network works with the versions of Matplotlib
 that are supported

---
 netomaton/utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/netomaton/utils.py b/netomaton/utils.py
index 4c1027d..880a605 100644
--- a/netomaton/utils.py
+++ b/netomaton/utils.py
@@ -157,12 +157,15 @@ def _reshape_for_animation(activities, shape):
 
 def plot_network(network, layout="shell", with_labels=True, node_color="#1f78b4", node_size=300):
     G = network.to_networkx()
+    # NetworkX would look for the axes in a way that recent versions of Matplotlib don't support
+    fig = plt.gcf()
+    ax = fig.gca() if fig.axes else fig.add_axes((0, 0, 1, 1))
     if layout == "shell":
-        nx.draw_shell(G, with_labels=with_labels, node_color=node_color, node_size=node_size)
+        nx.draw_shell(G, with_labels=with_labels, node_color=node_color, node_size=node_size, ax=ax)
     elif layout == "spring":
-        nx.draw_spring(G, with_labels=with_labels, node_color=node_color, node_size=node_size)
+        nx.draw_spring(G, with_labels=with_labels, node_color=node_color, node_size=node_size, ax=ax)
     elif isinstance(layout, dict):
-        nx.draw(G, pos=layout, with_labels=with_labels, node_color=node_color, node_size=node_size)
+        nx.draw(G, pos=layout, with_labels=with_labels, node_color=node_color, node_size=node_size, ax=ax)
     else:
         raise Exception("unsupported layout: %s" % layout)
     plt.show()
-- 
2.43.0


From 726de4046cfeb9ac8c23ce780f07ec93211de2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:57 +0000
Subject: [PATCH 35/36] fix: a tape-centric Turing machine refuses unsupported
 directions

---
 netomaton/turing_machine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/netomaton/turing_machine.py b/netomaton/turing_machine.py
index 9d9e20d..cec310f 100644
--- a/netomaton/turing_machine.py
+++ b/netomaton/turing_machine.py
@@ -45,6 +45,8 @@ class TapeCentricTuringMachine(TuringMachine):
                 next_head_state, new_node_state, direction = self._rule_table[head_state][node_state]
             except KeyError as err:
                 raise Exception("no rule defined for head state %s, input %s" % (head_state, node_state)) from err
+            if direction not in (TuringMachine.LEFT, TuringMachine.STAY, TuringMachine.RIGHT):
+                raise Exception("unsupported direction: %s" % direction)
             self._head_history.append((next_head_state, ctx.neighbour_labels[direction]))
             return new_node_state
         return node_state
-- 
2.43.0


From e9fa5c199110cf715644a90f658d68317f14dcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:59:58 +0000
Subject: [PATCH 36/36] fix: labels with markup don't break the exported
 network page

---
 netomaton/vis/vis_utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/netomaton/vis/vis_utils.py b/netomaton/vis/vis_utils.py
index a22704d..c38b2e6 100644
--- a/netomaton/vis/vis_utils.py
+++ b/netomaton/vis/vis_utils.py
@@ -1,4 +1,5 @@
 import json
+import math
 import numbers
 import os
 import webbrowser
@@ -41,8 +42,12 @@ def show_network(G, name="out.html", is_notebook=False):
 
 
 def _to_js(label):
-    # numbers can be written as they are, but any other label has to be a string
-    return str(label) if isinstance(label, numbers.Real) and not isinstance(label, bool) else json.dumps(str(label))
+    # finite numbers can be written as they are, but any other label has to be a string (which mustn't end the script)
+    if isinstance(label, numbers.Integral) and not isinstance(label, bool):
+        return str(label)
+    if isinstance(label, float) and math.isfinite(label):
+        return str(label)
+    return json.dumps(str(label)).replace("<", "\\u003c")
 
 
 def get_html(G):
-- 
2.43.0

