From ccacd7192c13d7b705403078b38ca4ae80cb08fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:10 +0000
Subject: [PATCH 01/33] fix: InfoQueue raises AttributeError when its
 deactivation time is reached

---
 queueing_tool/queues/queue_extentions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index 2a5150f..e49406f 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -313,7 +313,7 @@ class InfoQueue(LossQueue):
                 self._next_ct = self.arrival_f(self._current_t)
 
                 if self._next_ct >= self.deactive_t:
-                    self.active = False
+                    self._active = False
                     return
 
                 self._num_total += 1
-- 
2.43.0


From 6e747da2033a6e2f93d0d9a497750cae4ae35f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:10 +0000
Subject: [PATCH 02/33] fix: set_num_servers starts more agents than there are
 free servers

---
 queueing_tool/queues/queue_servers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index 6a196cc..176fd82 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -690,7 +690,8 @@ class QueueServer(object):
             the_str = "n must be a positive integer or infinity.\n{0}"
             raise ValueError(the_str.format(str(self)))
         else:
-            agents_to_queue = max(min(n - self.num_servers, len(self.queue)), 0)
+            num_servicing = self.num_system - len(self.queue)
+            agents_to_queue = max(min(n - num_servicing, len(self.queue)), 0)
 
             for _ in range(agents_to_queue):
                 self._service_from_queue()
-- 
2.43.0


From 2ac894f3dcb426da0509edbbd02f7ce1aea05fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:10 +0000
Subject: [PATCH 03/33] fix: ResourceAgents only take a resource when they
 depart

---
 queueing_tool/queues/queue_extentions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index e49406f..ffb25fb 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -43,7 +43,8 @@ class ResourceAgent(Agent):
             The instance of the queue that the ``ResourceAgent`` will
             interact with.
         """
-        if isinstance(queue, ResourceQueue):
+        departing = len(args) == 0 or args[0] == 2
+        if departing and isinstance(queue, ResourceQueue):
             if self._has_resource:
                 self._has_resource = False
                 self._had_resource = True
-- 
2.43.0


From 20408bd99e27814558e2fabe3ab5fb91975583d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:10 +0000
Subject: [PATCH 04/33] fix: a full ResourceQueue no longer stops outside
 arrivals for good

---
 queueing_tool/queues/queue_extentions.py | 20 +-------------------
 1 file changed, 1 insertion(+), 19 deletions(-)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index ffb25fb..b69e218 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -153,26 +153,8 @@ class ResourceQueue(LossQueue):
                     else:
                         self._time = self._departures[0]._time
 
-                elif self.num_system < self.num_servers:
-                    super(ResourceQueue, self).next_event()
-
                 else:
-                    self.num_blocked += 1
-                    self._num_arrivals += 1
-                    self._num_total -= 1
-                    arrival = heappop(self._arrivals)
-                    self._current_t = arrival._time
-
-                    if self.collect_data:
-                        if arrival.agent_id not in self.data:
-                            self.data[arrival.agent_id] = [[arrival._time, 0, 0, len(self.queue), self.num_system]]
-                        else:
-                            self.data[arrival.agent_id].append([arrival._time, 0, 0, len(self.queue), self.num_system])
-
-                    if self._arrivals[0]._time < self._departures[0]._time:
-                        self._time = self._arrivals[0]._time
-                    else:
-                        self._time = self._departures[0]._time
+                    super(ResourceQueue, self).next_event()
         else:
             return super(ResourceQueue, self).next_event()
 
-- 
2.43.0


From d9fb19ecf335a93e9de6f5d9c60c5af62b640d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:05 +0000
Subject: [PATCH 05/33] fix: stale entries in the event heap no longer count as
 network events

---
 queueing_tool/network/queue_network.py | 32 +++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 3547f21..c448da3 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -402,8 +402,7 @@ class QueueNetwork(object):
     @property
     def time(self):
         if self._fancy_heap.size > 0:
-            e = self._fancy_heap.array_edges[0]
-            t = self.edge2queue[e]._time
+            t = min(q._time for q in self.edge2queue)
         else:
             t = np.infty
         return t
@@ -1007,7 +1006,11 @@ class QueueNetwork(object):
             e = s[0][1]
             q = self.edge2queue[e]
 
-            event_type = 'Arrival' if q.next_event_description() == 1 else 'Departure'
+            event = q.next_event_description()
+            if event == 0:
+                return 'Nothing', None
+
+            event_type = 'Arrival' if event == 1 else 'Departure'
             edge_index = q.edge[2]
         return event_type, edge_index
 
@@ -1299,12 +1302,28 @@ class QueueNetwork(object):
             while self._t < now + t:
                 self._simulate_next_event(slow=False)
 
+    def _pop_next_key(self):
+        # The heap can hold entries that are out of date, so entries
+        # that don't match when their queue's next event is are skipped.
+        while self._fancy_heap.size > 0:
+            key = self._fancy_heap.pop()
+            if key is None:
+                return None
+
+            current_key = self.edge2queue[key[1]]._key()
+            if key[0] == current_key[0]:
+                return key
+            elif current_key[0] < np.infty:
+                self._fancy_heap.push(*current_key)
+
+        return None
+
     def _simulate_next_event(self, slow=True):
-        if self._fancy_heap.size == 0:
+        q1k = self._pop_next_key()
+        if q1k is None:
             self._t = np.infty
             return
 
-        q1k = self._fancy_heap.pop()
         q1t = q1k[0]
         q1 = self.edge2queue[q1k[1]]
         e1 = q1.edge[2]
@@ -1354,7 +1373,8 @@ class QueueNetwork(object):
             new_q2k = q2._key()
 
             if new_q2k[0] != q2k[0]:
-                self._fancy_heap.push(*new_q2k)
+                if new_q2k[0] < np.infty:
+                    self._fancy_heap.push(*new_q2k)
 
                 if new_q1k[0] < np.infty and new_q1k != new_q2k:
                     self._fancy_heap.push(*new_q1k)
-- 
2.43.0


From 3c7dce953bf0481583384d4f4de645982660e599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:05 +0000
Subject: [PATCH 06/33] fix: a reactivated queue stays within its cap on
 outside arrivals

---
 queueing_tool/queues/queue_extentions.py | 4 ++++
 queueing_tool/queues/queue_servers.py    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index b69e218..f7f33e8 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -292,6 +292,10 @@ class InfoQueue(LossQueue):
             self._num_total += 1
             heappush(self._arrivals, agent)
         else:
+            if self._oArrivals >= self.active_cap:
+                self._active = False
+                return
+
             if self._current_t >= self._next_ct:
                 self._next_ct = self.arrival_f(self._current_t)
 
diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index 176fd82..9f75674 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -360,6 +360,10 @@ class QueueServer(object):
             self._num_total += 1
             heappush(self._arrivals, agent)
         else:
+            if self._oArrivals >= self.active_cap:
+                self._active = False
+                return
+
             if self._current_t >= self._next_ct:
                 self._next_ct = self.arrival_f(self._current_t)
 
-- 
2.43.0


From 27dfb745f6f84d48ff5e515f82bdd36745810b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:05 +0000
Subject: [PATCH 07/33] fix: set_transitions checks matrix rows by vertex index

---
 queueing_tool/network/queue_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index c448da3..7510369 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1121,7 +1121,7 @@ class QueueNetwork(object):
                     self._route_probs[key][k] = value.get(e[1], 0)
 
         elif isinstance(mat, np.ndarray):
-            non_terminal = np.array([self.g.out_degree(v) > 0 for v in self.g.nodes()])
+            non_terminal = np.array([self.g.out_degree(v) > 0 for v in range(self.nV)])
             if mat.shape != (self.nV, self.nV):
                 msg = ("Matrix is the wrong shape, should "
                        "be {0} x {1}.").format(self.nV, self.nV)
-- 
2.43.0


From 74223f4dd8c7b60eb7862002f78185b800f57b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 08/33] fix: set_transitions rejects bad input before changing
 anything

---
 queueing_tool/network/queue_network.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 7510369..2608439 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1105,18 +1105,22 @@ class QueueNetwork(object):
         """
         if isinstance(mat, dict):
             for key, value in mat.items():
-                probs = list(value.values())
-
                 if key not in self.g.nodes:
                     msg = "One of the keys don't correspond to a vertex."
                     raise ValueError(msg)
-                elif len(self.out_edges[key]) > 0 and not np.isclose(sum(probs), 1):
+
+                probs = list(value.values())
+                edge_probs = [value.get(e[1], 0) for e in self.g.out_edges(key)]
+
+                if len(self.out_edges[key]) > 0 and \
+                        not np.allclose([sum(probs), sum(edge_probs)], 1):
                     msg = "Sum of transition probabilities at a vertex was not 1."
                     raise ValueError(msg)
                 elif (np.array(probs) < 0).any():
                     msg = "Some transition probabilities were negative."
                     raise ValueError(msg)
 
+            for key, value in mat.items():
                 for k, e in enumerate(sorted(self.g.out_edges(key))):
                     self._route_probs[key][k] = value.get(e[1], 0)
 
@@ -1132,6 +1136,12 @@ class QueueNetwork(object):
             elif (mat < 0).any():
                 raise ValueError("Some transition probabilities were negative.")
 
+            edge_sums = [sum(mat[v, e[1]] for e in self.g.out_edges(v))
+                         for v in range(self.nV) if non_terminal[v]]
+            if not np.allclose(edge_sums, 1):
+                msg = "Sum of transition probabilities at a vertex was not 1."
+                raise ValueError(msg)
+
             for k in range(self.nV):
                 for j, e in enumerate(sorted(self.g.out_edges(k))):
                     self._route_probs[k][j] = mat[k, e[1]]
-- 
2.43.0


From 4ae5da360445b936adea3769ba87720f275a0816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 09/33] fix: a copied network keeps its edge indices and colors

---
 queueing_tool/network/queue_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 2608439..4bf73e4 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -641,7 +641,7 @@ class QueueNetwork(object):
     def copy(self):
         """Returns a deep copy of itself."""
         net = QueueNetwork(None)
-        net.g = self.g.copy()
+        net.g = copy.deepcopy(self.g)
         net.max_agents = copy.deepcopy(self.max_agents)
         net.nV = copy.deepcopy(self.nV)
         net.nE = copy.deepcopy(self.nE)
-- 
2.43.0


From a81f2ab30513cb6fe1f4d7a0b05d08afd22cf4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 10/33] fix: selecting queues with a tuple or array of edges
 selects those edges

---
 queueing_tool/network/queue_network.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 4bf73e4..c8a2184 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1640,14 +1640,10 @@ def _get_queues(g, queues, edge, edge_type):
 
     elif queues is None:
         if edge is not None:
-            if isinstance(edge, tuple):
-                if isinstance(edge[0], INT) and isinstance(edge[1], INT):
-                    queues = [g.edge_index[edge]]
-            elif isinstance(edge[0], collections.abc.Iterable):
-                if np.array([len(e) == 2 for e in edge]).all():
-                    queues = [g.edge_index[e] for e in edge]
-            else:
-                queues = [g.edge_index[edge]]
+            edge = list(edge)
+            if len(edge) == 2 and all(isinstance(v, INT) for v in edge):
+                edge = [edge]
+            queues = [g.edge_index[tuple(e)] for e in edge]
         elif edge_type is not None:
             if isinstance(edge_type, collections.abc.Iterable):
                 edge_type = set(edge_type)
-- 
2.43.0


From 4ed3c4ec464904040d19e78d0fd713af22aadfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 11/33] fix: vertex positions are stored by vertex index

---
 queueing_tool/graph/graph_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/queueing_tool/graph/graph_wrapper.py b/queueing_tool/graph/graph_wrapper.py
index 656e13d..7345b9c 100644
--- a/queueing_tool/graph/graph_wrapper.py
+++ b/queueing_tool/graph/graph_wrapper.py
@@ -240,7 +240,7 @@ class QueueNetworkDiGraph(nx.DiGraph):
 
         pos = nx.get_node_attributes(self, name='pos')
         if len(pos) == self.number_of_nodes():
-            self.pos = np.array([pos[v] for v in self.nodes()])
+            self.pos = np.array([pos[v] for v in sorted(self.nodes())])
         else:
             self.pos = None
 
@@ -313,7 +313,7 @@ class QueueNetworkDiGraph(nx.DiGraph):
         if pos is None:
             pos = nx.spring_layout(self)
         nx.set_node_attributes(self, name='pos', values=pos)
-        self.pos = np.array([pos[v] for v in self.nodes()])
+        self.pos = np.array([pos[v] for v in sorted(self.nodes())])
 
     def get_edge_type(self, edge_type):
         """Returns all edges with the specified edge type.
-- 
2.43.0


From 6b548d0b3a9ca8bb1cb041413f0363aeed6c73d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 12/33] fix: edges are colored using the queue that sits on
 them

---
 queueing_tool/graph/graph_preparation.py | 3 ++-
 queueing_tool/network/queue_network.py   | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/queueing_tool/graph/graph_preparation.py b/queueing_tool/graph/graph_preparation.py
index e751d00..208734f 100644
--- a/queueing_tool/graph/graph_preparation.py
+++ b/queueing_tool/graph/graph_preparation.py
@@ -134,7 +134,8 @@ def _prepare_graph(g, g_colors, q_cls, q_arg, adjust_graph):
     if 'pos' not in g.vertex_properties():
         g.set_pos()
 
-    for k, e in enumerate(g.edges()):
+    for e in g.edges():
+        k = g.edge_index[e]
         g.set_ep(e, 'edge_pen_width', 1.25)
         g.set_ep(e, 'edge_marker_size', 8)
         if e[0] == e[1]:
diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index c8a2184..0401005 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1016,7 +1016,8 @@ class QueueNetwork(object):
 
     def reset_colors(self):
         """Resets all edge and vertex colors to their default values."""
-        for k, e in enumerate(self.g.edges()):
+        for e in self.g.edges():
+            k = self.g.edge_index[e]
             self.g.set_ep(e, 'edge_color', self.edge2queue[k].colors['edge_color'])
         for v in self.g.nodes():
             self.g.set_vp(v, 'vertex_fill_color', self.colors['vertex_fill_color'])
@@ -1614,7 +1615,7 @@ class QueueNetwork(object):
                 self.g.set_ep(pe, 'edge_color', q._current_color(1))
                 self.g.set_vp(pv, 'vertex_color', q._current_color(2))
                 if q.edge[3] != 0:
-                    self.g.set_vp(v, 'vertex_fill_color', q._current_color())
+                    self.g.set_vp(pv, 'vertex_fill_color', q._current_color())
 
             else:
                 self.g.set_ep(pe, 'edge_color', q._current_color())
-- 
2.43.0


From 636cf678e8d3db5c0a0e46e10e6cba63ddcb02a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 13/33] fix: clearing a NullQueue removes the data it collected

---
 queueing_tool/queues/queue_servers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index 9f75674..f62ad7e 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -958,4 +958,4 @@ class NullQueue(QueueServer):
         return color
 
     def clear(self):
-        pass
+        self.data = {}
-- 
2.43.0


From 07a453f2b837549ea1322c90cd9aca0f3f68c115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 14/33] fix: initializing a network again respects max_agents

---
 queueing_tool/network/queue_network.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 0401005..7d78f9d 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -972,10 +972,9 @@ class QueueNetwork(object):
         if len(queues) == 0:
             raise QueueingToolError("There were no queues to initialize.")
 
-        if len(queues) > self.max_agents:
-            queues = queues[:self.max_agents]
-
         for ei in queues:
+            if np.sum(self.num_agents) >= self.max_agents:
+                break
             self.edge2queue[ei].set_active()
             self.num_agents[ei] = self.edge2queue[ei]._num_total
 
-- 
2.43.0


From 9830461bdef5918960073dbed9948e7153eea03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 15/33] fix: InfoQueues take information from agents that
 arrive at a departure time

---
 queueing_tool/queues/queue_extentions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index f7f33e8..9b5c6ef 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -317,7 +317,7 @@ class InfoQueue(LossQueue):
             self._time = self._arrivals[0]._time
 
     def next_event(self):
-        if self._arrivals[0]._time < self._departures[0]._time:
+        if self._arrivals[0]._time <= self._departures[0]._time:
             self.extract_information(self._arrivals[0])
 
         return super(InfoQueue, self).next_event()
-- 
2.43.0


From 931a600954a8a36df99d904ec80adcca46a30503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:11 +0000
Subject: [PATCH 16/33] fix: minimal_random_graph creates the vertex of a one
 vertex graph

---
 queueing_tool/graph/graph_generation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/queueing_tool/graph/graph_generation.py b/queueing_tool/graph/graph_generation.py
index 87b6cdc..faca220 100644
--- a/queueing_tool/graph/graph_generation.py
+++ b/queueing_tool/graph/graph_generation.py
@@ -229,6 +229,7 @@ def minimal_random_graph(num_vertices, seed=None, **kwargs):
         if unionF.nClusters == 1:
             break
 
+    g.add_nodes_from(range(num_vertices))
     pos = {j: p for j, p in enumerate(points)}
     g = QueueNetworkDiGraph(g.to_directed())
     g.set_pos(pos)
-- 
2.43.0


From 519549f254db30caac7d572b775a977eac8e3308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:50 +0000
Subject: [PATCH 17/33] fix: data about a visit is only written to the row of
 that visit

---
 queueing_tool/queues/agents.py        |  1 +
 queueing_tool/queues/queue_servers.py | 22 ++++++++++------------
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/queueing_tool/queues/agents.py b/queueing_tool/queues/agents.py
index 74435bc..4a90559 100644
--- a/queueing_tool/queues/agents.py
+++ b/queueing_tool/queues/agents.py
@@ -39,6 +39,7 @@ class Agent(object):
         self.agent_id = agent_id
         self.blocked = 0
         self._time = 0  # The agents arrival or departure time
+        self._visit_data = None  # The data row for the agents current visit
 
     def __repr__(self):
         return "Agent; agent_id:{0}. time: {1}".format(self.agent_id, round(self._time, 3))
diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index f62ad7e..3bf609a 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -494,8 +494,8 @@ class QueueServer(object):
 
     def _service_from_queue(self):
         agent = self.queue.popleft()
-        if self.collect_data and agent.agent_id in self.data:
-            self.data[agent.agent_id][-1][1] = self._current_t
+        if self.collect_data and agent._visit_data is not None:
+            agent._visit_data[1] = self._current_t
 
         agent._time = self.service_f(self._current_t)
         agent.queue_action(self, 1)
@@ -589,8 +589,8 @@ class QueueServer(object):
             self.num_system -= 1
             self.num_departures += 1
 
-            if self.collect_data and new_depart.agent_id in self.data:
-                self.data[new_depart.agent_id][-1][2] = self._current_t
+            if self.collect_data and new_depart._visit_data is not None:
+                new_depart._visit_data[2] = self._current_t
 
             num_queued = len(self.queue)
             # This is the number of agents currently being serviced by
@@ -616,20 +616,18 @@ class QueueServer(object):
             self.num_system += 1
             self._num_arrivals += 1
 
+            arrival._visit_data = None
             if self.collect_data:
                 b = 0 if self.num_system <= self.num_servers else 1
-                if arrival.agent_id not in self.data:
-                    self.data[arrival.agent_id] = \
-                        [[arrival._time, 0, 0, len(self.queue) + b, self.num_system]]
-                else:
-                    self.data[arrival.agent_id]\
-                        .append([arrival._time, 0, 0, len(self.queue) + b, self.num_system])
+                arrival._visit_data = \
+                    [arrival._time, 0, 0, len(self.queue) + b, self.num_system]
+                self.data.setdefault(arrival.agent_id, []).append(arrival._visit_data)
 
             arrival.queue_action(self, 0)
 
             if self.num_system <= self.num_servers:
-                if self.collect_data:
-                    self.data[arrival.agent_id][-1][1] = arrival._time
+                if arrival._visit_data is not None:
+                    arrival._visit_data[1] = arrival._time
 
                 arrival._time = self.service_f(arrival._time)
                 arrival.queue_action(self, 1)
-- 
2.43.0


From 02a8c96cb560ebf7b0e91f595e3608482e9dfdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:08 +0000
Subject: [PATCH 18/33] fix: an agent in transit is not displaced by a
 simultaneous outside arrival

---
 queueing_tool/network/queue_network.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 7d78f9d..ecc7ef1 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1361,6 +1361,14 @@ class QueueNetwork(object):
                 agent._time = q1t
 
                 q2._add_arrival(agent)
+
+                # When there are ties make sure that the agent that is
+                # moving is the one that enters q2 next.
+                first = q2._arrivals[0]
+                if first is not agent and first._time == agent._time:
+                    k = [a is agent for a in q2._arrivals].index(True)
+                    q2._arrivals[0], q2._arrivals[k] = agent, first
+
                 self.num_agents[e1] = q1._num_total
                 self.num_agents[e2] = q2._num_total
 
-- 
2.43.0


From 915cfa0c442aaf9078df8f3b0b5c98dfe04b6be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:08 +0000
Subject: [PATCH 19/33] fix: reinitializing a running network does not schedule
 arrivals in the past

---
 queueing_tool/network/queue_network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index ecc7ef1..a54c0fd 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -975,6 +975,8 @@ class QueueNetwork(object):
         for ei in queues:
             if np.sum(self.num_agents) >= self.max_agents:
                 break
+            if not self.edge2queue[ei]._active and self._t < np.infty:
+                self.edge2queue[ei]._current_t = max(self.edge2queue[ei]._current_t, self._t)
             self.edge2queue[ei].set_active()
             self.num_agents[ei] = self.edge2queue[ei]._num_total
 
-- 
2.43.0


From 8cc515642c72ebd4cebb42b02d74548a70642754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:08 +0000
Subject: [PATCH 20/33] fix: an agent returning a resource is not blocked from
 its ResourceQueue

---
 queueing_tool/network/queue_network.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index a54c0fd..24e484a 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -21,7 +21,9 @@ from queueing_tool.graph import _prepare_graph
 from queueing_tool.queues import (
     NullQueue,
     QueueServer,
-    LossQueue
+    LossQueue,
+    ResourceAgent,
+    ResourceQueue
 )
 from queueing_tool.network.priority_queue import PriorityQueue
 
@@ -1349,8 +1351,11 @@ class QueueNetwork(object):
             e2 = q1._departures[0].desired_destination(self, q1.edge)
             q2 = self.edge2queue[e2]
             q2k = q2._key()
+            returning = (isinstance(q2, ResourceQueue)
+                         and isinstance(q1._departures[0], ResourceAgent)
+                         and q1._departures[0]._has_resource)
 
-            if q2.at_capacity() and e2 != e1:
+            if q2.at_capacity() and e2 != e1 and not returning:
                 q2.num_blocked += 1
                 q1._departures[0].blocked += 1
                 if self._blocking:
-- 
2.43.0


From 5c14d7caca3750800f78f150475186b4efa664d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 21/33] fix: the event heap can be used when it starts out
 empty

---
 queueing_tool/network/priority_queue.pyx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/queueing_tool/network/priority_queue.pyx b/queueing_tool/network/priority_queue.pyx
index 44c72f6..6b3a1e6 100644
--- a/queueing_tool/network/priority_queue.pyx
+++ b/queueing_tool/network/priority_queue.pyx
@@ -61,6 +61,9 @@ cdef class PriorityQueue:
         cdef double t
         cdef int k
 
+        if self.size == 0:
+            return None
+
         self.heappop()
         with nogil:
             while self.next_time != self.q_times[self.next_node]:
@@ -85,10 +88,10 @@ cdef class PriorityQueue:
             self.sorted_edges[self.size] = k
 
         else:
-            array.resize_smart(self.array_times, 2 * self.size)
-            array.resize_smart(self.array_edges, 2 * self.size)
+            self.actual_size = 2 * self.size + 1
+            array.resize_smart(self.array_times, self.actual_size)
+            array.resize_smart(self.array_edges, self.actual_size)
 
-            self.actual_size *= 2
             self.sorted_times = self.array_times
             self.sorted_edges = self.array_edges
 
-- 
2.43.0


From 4f0fe3554cb9922e573edb516d606c7bf835b92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 22/33] fix: a queue past its stopping time stays inactive when
 activated again

---
 queueing_tool/queues/queue_extentions.py | 10 ++++++----
 queueing_tool/queues/queue_servers.py    | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index 9b5c6ef..56865fc 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -296,13 +296,15 @@ class InfoQueue(LossQueue):
                 self._active = False
                 return
 
-            if self._current_t >= self._next_ct:
+            is_due = self._current_t >= self._next_ct
+            if is_due:
                 self._next_ct = self.arrival_f(self._current_t)
 
-                if self._next_ct >= self.deactive_t:
-                    self._active = False
-                    return
+            if self._next_ct >= self.deactive_t:
+                self._active = False
+                return
 
+            if is_due:
                 self._num_total += 1
                 new_agent = self.AgentFactory((self.edge[2], self._oArrivals), len(self.net_data))
                 new_agent._time = self._next_ct
diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index 3bf609a..b1a9d1d 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -364,13 +364,15 @@ class QueueServer(object):
                 self._active = False
                 return
 
-            if self._current_t >= self._next_ct:
+            is_due = self._current_t >= self._next_ct
+            if is_due:
                 self._next_ct = self.arrival_f(self._current_t)
 
-                if self._next_ct >= self.deactive_t:
-                    self._active = False
-                    return
+            if self._next_ct >= self.deactive_t:
+                self._active = False
+                return
 
+            if is_due:
                 self._num_total += 1
                 new_agent = self.AgentFactory((self.edge[2], self._oArrivals))
                 new_agent._time = self._next_ct
-- 
2.43.0


From 174320e6336bd8d2c5e3f6f4d482714033d796ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:32 +0000
Subject: [PATCH 23/33] fix: a network that ran out of events can be
 initialized and run again

---
 queueing_tool/network/queue_network.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 24e484a..ad14f4c 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -974,10 +974,14 @@ class QueueNetwork(object):
         if len(queues) == 0:
             raise QueueingToolError("There were no queues to initialize.")
 
+        if self._t == np.infty:
+            # The network ran out of events, so it goes on from the last one
+            self._t = max(q._current_t for q in self.edge2queue)
+
         for ei in queues:
             if np.sum(self.num_agents) >= self.max_agents:
                 break
-            if not self.edge2queue[ei]._active and self._t < np.infty:
+            if not self.edge2queue[ei]._active:
                 self.edge2queue[ei]._current_t = max(self.edge2queue[ei]._current_t, self._t)
             self.edge2queue[ei].set_active()
             self.num_agents[ei] = self.edge2queue[ei]._num_total
-- 
2.43.0


From 04851e03de60eea2494b0113f5348bd8f0739317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:48 +0000
Subject: [PATCH 24/33] fix: the event heap hands out a node's entry only once

---
 queueing_tool/network/priority_queue.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/queueing_tool/network/priority_queue.pyx b/queueing_tool/network/priority_queue.pyx
index 6b3a1e6..d492040 100644
--- a/queueing_tool/network/priority_queue.pyx
+++ b/queueing_tool/network/priority_queue.pyx
@@ -75,6 +75,9 @@ cdef class PriorityQueue:
         if self.size < 0:
             self.size += 1
             return None
+
+        # Any other entry for this node is out of date until its next push.
+        self.q_times[self.next_node] = float('inf')
         return self.next_time, self.next_node
 
     @cython.boundscheck(False)
-- 
2.43.0


From 8e34421306f5ee0e0516fb87cf59f2ef1b773770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:51 +0000
Subject: [PATCH 25/33] fix: drawing colors every vertex that has a terminal
 loop by its load

---
 queueing_tool/network/queue_network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index ad14f4c..9173f67 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1590,6 +1590,8 @@ class QueueNetwork(object):
                 self.g.set_vp(v, 'vertex_color', q._current_color(2))
                 if q.edge[3] != 0:
                     self.g.set_vp(v, 'vertex_fill_color', q._current_color())
+                else:
+                    self._update_vertex_color(v)
                 do[v] = False
             else:
                 self.g.set_ep(e, 'edge_color', q._current_color())
-- 
2.43.0


From 2929e710756e0f781ed47b8291a6d0252a28de23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:07 +0000
Subject: [PATCH 26/33] fix: edge and vertex properties named like an attribute
 of the graph can be set

---
 queueing_tool/graph/graph_wrapper.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/queueing_tool/graph/graph_wrapper.py b/queueing_tool/graph/graph_wrapper.py
index 7345b9c..40e7ac7 100644
--- a/queueing_tool/graph/graph_wrapper.py
+++ b/queueing_tool/graph/graph_wrapper.py
@@ -273,15 +273,15 @@ class QueueNetworkDiGraph(nx.DiGraph):
 
     def set_ep(self, e, edge_property, value):
         self.adj[e[0]][e[1]][edge_property] = value
-        if hasattr(self, edge_property):
-            attr = getattr(self, edge_property)
-            attr[self.edge_index[e]] = value
+        if edge_property == 'edge_color' and self.edge_color is not None:
+            self.edge_color[self.edge_index[e]] = value
 
     def set_vp(self, v, vertex_property, value):
         self.nodes[v][vertex_property] = value
-        if hasattr(self, vertex_property):
+        if vertex_property in ('pos', 'vertex_color', 'vertex_fill_color'):
             attr = getattr(self, vertex_property)
-            attr[v] = value
+            if attr is not None:
+                attr[v] = value
 
     def vertex_properties(self):
         props = set()
-- 
2.43.0


From 9d02aa070651d536d4b60e48a2ca04584b2f7786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:32 +0000
Subject: [PATCH 27/33] fix: an edge added after the edge colors exist gets a
 color of its own

---
 queueing_tool/graph/graph_wrapper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/queueing_tool/graph/graph_wrapper.py b/queueing_tool/graph/graph_wrapper.py
index 40e7ac7..d623f0e 100644
--- a/queueing_tool/graph/graph_wrapper.py
+++ b/queueing_tool/graph/graph_wrapper.py
@@ -261,6 +261,8 @@ class QueueNetworkDiGraph(nx.DiGraph):
         if e not in self.edge_index:
             self.edge_index[e] = self._nE
             self._nE += 1
+            if self.edge_color is not None:
+                self.edge_color = np.append(self.edge_color, np.zeros((1, 4)), axis=0)
 
     def out_neighbours(self, v):
         return [e[1] for e in self.out_edges(v)]
-- 
2.43.0


From b612a7e7396bbf3060d84c04f6768c5cf1397428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:03 +0000
Subject: [PATCH 28/33] fix: a network takes a queue class for any edge type
 without arguments

---
 queueing_tool/network/queue_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 9173f67..e54f019 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -337,7 +337,7 @@ class QueueNetwork(object):
                 q_classes[k] = self.default_classes[k]
 
         if q_args is None:
-            q_args = {k: {} for k in range(5)}
+            q_args = {k: {} for k in q_classes.keys()}
         else:
             for k in set(q_classes.keys()) - set(q_args.keys()):
                 q_args[k] = {}
-- 
2.43.0


From ca4d466725d7c484e44d8b9bab55d4b3856708a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 29/33] fix: an agent never takes an edge of probability zero

The first edge was chosen for a draw of 0 whatever its probability, and the
last one when the probabilities sum to slightly less than one.
---
 queueing_tool/queues/choice.pyx | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/queueing_tool/queues/choice.pyx b/queueing_tool/queues/choice.pyx
index 8a9b98a..ea78e77 100644
--- a/queueing_tool/queues/choice.pyx
+++ b/queueing_tool/queues/choice.pyx
@@ -7,21 +7,20 @@ import array
 @cython.wraparound(False)
 @cython.nonecheck(False)
 def _choice(double [::1] pr, double u, Py_ssize_t n):
-    cdef double z
-    cdef int k
+    cdef double z = 0.
+    cdef int k, last = n - 1
 
-    if u <= pr[0]:
-        k = 0
-    else:
-        z = pr[0]
-        with nogil:
-            for k in range(1, n):
-                if u <= z + pr[k]:
+    # The entry that is returned is never one whose probability is zero,
+    # also when u is 0 or pr only sums to one approximately.
+    with nogil:
+        for k in range(n):
+            if pr[k] > 0:
+                last = k
+                z += pr[k]
+                if u <= z:
                     break
-                else:
-                    z += pr[k]
 
-    return k
+    return last
 
 
 @cython.boundscheck(False)
-- 
2.43.0


From 2af1c5f63feb16098806b4463aa98c7b83c9e69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 30/33] fix: a candidate arrival with rate zero is always
 rejected

It was accepted when the uniform draw was exactly 0.
---
 queueing_tool/queues/queue_servers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index b1a9d1d..e91ed50 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -73,7 +73,7 @@ def poisson_random_measure(t, rate, rate_max):
     """
     scale = 1.0 / rate_max
     t = t + exponential(scale)
-    while rate_max * uniform() > rate(t):
+    while rate_max * uniform() >= rate(t):
         t = t + exponential(scale)
     return t
 
-- 
2.43.0


From 0bfb0bbfdd97cd6ccb07f43cda9384edcf413560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:51 +0000
Subject: [PATCH 31/33] fix: adjacency2graph does not write edge types into the
 caller's adjacency

---
 queueing_tool/graph/graph_wrapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/queueing_tool/graph/graph_wrapper.py b/queueing_tool/graph/graph_wrapper.py
index d623f0e..95f1ea0 100644
--- a/queueing_tool/graph/graph_wrapper.py
+++ b/queueing_tool/graph/graph_wrapper.py
@@ -156,7 +156,8 @@ def adjacency2graph(adjacency, edge_type=None, adjust=1, **kwargs):
     if isinstance(adjacency, np.ndarray):
         adjacency = _matrix2dict(adjacency)
     elif isinstance(adjacency, dict):
-        adjacency = _dict2dict(adjacency)
+        adjacency = {u: {v: dict(properties) for v, properties in adj.items()}
+                     for u, adj in _dict2dict(adjacency).items()}
     else:
         msg = ("If the adjacency parameter is supplied it must be a "
                "dict, or a numpy.ndarray.")
-- 
2.43.0


From c8744437e783fdb50c29674809ea9c88f01ebdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:34 +0000
Subject: [PATCH 32/33] fix: edges added to a graph in bulk get edge indices

---
 queueing_tool/graph/graph_wrapper.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/queueing_tool/graph/graph_wrapper.py b/queueing_tool/graph/graph_wrapper.py
index 95f1ea0..9f39706 100644
--- a/queueing_tool/graph/graph_wrapper.py
+++ b/queueing_tool/graph/graph_wrapper.py
@@ -265,6 +265,14 @@ class QueueNetworkDiGraph(nx.DiGraph):
             if self.edge_color is not None:
                 self.edge_color = np.append(self.edge_color, np.zeros((1, 4)), axis=0)
 
+    def add_edges_from(self, ebunch_to_add, **attr):
+        edges = list(ebunch_to_add)
+        super(QueueNetworkDiGraph, self).add_edges_from(edges, **attr)
+        # There are no edge indices yet while networkx is building the graph.
+        if hasattr(self, 'edge_index'):
+            for e in edges:
+                self.add_edge(e[0], e[1])
+
     def out_neighbours(self, v):
         return [e[1] for e in self.out_edges(v)]
 
-- 
2.43.0


From dd78fb6c65b2f8771df72d08b5411ab707d94f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:34 +0000
Subject: [PATCH 33/33] fix: an edge that was removed is not reported as an
 edge

---
 queueing_tool/graph/graph_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/graph/graph_wrapper.py b/queueing_tool/graph/graph_wrapper.py
index 9f39706..728cc28 100644
--- a/queueing_tool/graph/graph_wrapper.py
+++ b/queueing_tool/graph/graph_wrapper.py
@@ -254,7 +254,7 @@ class QueueNetworkDiGraph(nx.DiGraph):
         nx.freeze(self)
 
     def is_edge(self, e):
-        return e in self.edge_index
+        return self.has_edge(*e)
 
     def add_edge(self, *args, **kwargs):
         super(QueueNetworkDiGraph, self).add_edge(*args, **kwargs)
-- 
2.43.0

