From 574e3ff51dde0feb4b95958f6fa54e7a67265b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 01/51] fix: del_node on undirected graphs and on nodes with a
 self-loop

---
 src/gimpy/graph.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 1d3638e..5bf93a8 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -316,18 +316,14 @@ class Graph(object):
         '''
         if name not in self.neighbors:
             raise Exception('Node %s does not exist!' %str(name))
-        for n in self.neighbors[name]:
-            del self.edge_attr[(name, n)]
-            if self.graph_type == UNDIRECTED_GRAPH:
-                self.neighbors[n].remove(name)
-            else:
-                self.in_neighbors[n].remove(name)
-        if self.graph_type is DIRECTED_GRAPH:
-            for n in self.in_neighbors[name]:
-                del self.edge_attr[(n, name)]
-                self.neighbors[n].remove(name)
+        for n in list(self.neighbors[name]):
+            if self.check_edge(name, n):
+                self.del_edge((name, n))
+        if self.graph_type == DIRECTED_GRAPH:
+            for n in list(self.in_neighbors[name]):
+                self.del_edge((n, name))
+            del self.in_neighbors[name]
         del self.neighbors[name]
-        del self.in_neighbors[name]
         del self.nodes[name]
 
     def add_edge(self, name1, name2, **attr):
-- 
2.43.0


From 23ad8a81d4efee3c65e50a87f57045df0d85a632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 02/51] fix: search() made a node with a self-loop its own
 predecessor

---
 src/gimpy/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 5bf93a8..09b7333 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1061,7 +1061,7 @@ class Graph(object):
                 break
             self.display()
             for n in neighbors[current]:
-                if self.get_node(n).get_attr('color') != 'green':
+                if n != current and self.get_node(n).get_attr('color') != 'green':
                     if reverse:
                         self.set_edge_attr(n, current, 'color', 'yellow')
                     else:
-- 
2.43.0


From 4710bee01b0a2421d9d9d2b791241277b106ba3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 03/51] fix: search(reverse=True) with Dijkstra or Prim raised
 KeyError on directed graphs

---
 src/gimpy/graph.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 09b7333..b18beda 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1068,7 +1068,7 @@ class Graph(object):
                         self.set_edge_attr(current, n, 'color', 'yellow')
                     self.display()
                     self.process_edge_search(current, n, pred, q, component,
-                                             algo, **kargs)
+                                             algo, reverse = reverse, **kargs)
                     if reverse:
                         self.set_edge_attr(n, current, 'color', 'black')
                     else:
@@ -1104,7 +1104,8 @@ class Graph(object):
         if isinstance(q, PriorityQueue):
             self.get_node(node).set_attr('priority', q.get_priority(node))
 
-    def process_edge_dijkstra(self, current, neighbor, pred, q, component):
+    def process_edge_dijkstra(self, current, neighbor, pred, q, component,
+                              reverse = False):
         '''
         API: process_edge_dijkstra(self, current, neighbor, pred, q, component)
         Description:
@@ -1127,8 +1128,9 @@ class Graph(object):
             self.display()
             self.get_node(neighbor).set_attr('color', 'black')
             return
+        edge = (neighbor, current) if reverse else (current, neighbor)
         new_estimate = (q.get_priority(current) +
-                        self.get_edge_attr(current, neighbor, 'cost'))
+                        self.get_edge_attr(edge[0], edge[1], 'cost'))
         if neighbor not in pred or new_estimate < q.get_priority(neighbor):
             pred[neighbor] = current
             self.get_node(neighbor).set_attr('color', 'red')
@@ -1137,7 +1139,8 @@ class Graph(object):
             self.display()
             self.get_node(neighbor).set_attr('color', 'black')
 
-    def process_edge_prim(self, current, neighbor, pred, q, component):
+    def process_edge_prim(self, current, neighbor, pred, q, component,
+                          reverse = False):
         '''
         API: process_edge_prim(self, current, neighbor, pred, q, component)
         Description:
@@ -1160,7 +1163,8 @@ class Graph(object):
             self.display()
             self.get_node(neighbor).set_attr('color', 'black')
             return
-        new_estimate = self.get_edge_attr(current, neighbor, 'cost')
+        edge = (neighbor, current) if reverse else (current, neighbor)
+        new_estimate = self.get_edge_attr(edge[0], edge[1], 'cost')
         if not neighbor in pred or new_estimate < q.get_priority(neighbor):
             pred[neighbor] = current
             self.get_node(neighbor).set_attr('color', 'red')
@@ -1189,12 +1193,13 @@ class Graph(object):
             'color', 'distance', 'component' attribute of nodes and edges may
             change.
         '''
+        reverse = kargs.get('reverse', False)
         if algo == 'Dijkstra':
             return self.process_edge_dijkstra(current, neighbor, pred, q,
-                                              component)
+                                              component, reverse)
         if algo == 'Prim':
             return self.process_edge_prim(current, neighbor, pred, q,
-                                          component)
+                                          component, reverse)
         neighbor_node = self.get_node(neighbor)
         if current == None:
             neighbor_node.set_attr('distance', 0)
-- 
2.43.0


From 0703154853225f94574dabb4c0de7cfe35459b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 04/51] fix: minimum_spanning_tree_prim failed on every graph
 with a cycle and on a second call

---
 src/gimpy/graph.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index b18beda..bea341f 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1242,7 +1242,7 @@ class Graph(object):
         self.display()
 
     def minimum_spanning_tree_prim(self, source, display = None,
-                                   q = PriorityQueue()):
+                                   q = None):
         '''
         API: minimum_spanning_tree_prim(self, source, display = None,
                                         q = PriorityQueue())
@@ -1263,14 +1263,18 @@ class Graph(object):
             display = self.attr['display']
         else:
             self.set_display_mode(display)
+        if q is None:
+            q = PriorityQueue()
         if isinstance(q, PriorityQueue):
             addToQ = q.push
             removeFromQ = q.pop
-            peek = q.peek
+            get_priority = q.get_priority
             isEmpty = q.isEmpty
         neighbors = self.get_neighbors
         pred = {}
-        addToQ(source)
+        for n in self.get_node_list():
+            self.set_node_attr(n, 'color', 'black')
+        addToQ(source, 0)
         done = False
         while not isEmpty() and not done:
             current = removeFromQ()
@@ -1279,11 +1283,11 @@ class Graph(object):
                 self.set_edge_attr(pred[current], current, 'color', 'green')
             self.display()
             for n in neighbors(current):
-                if self.get_node_attr(n, 'color') != 'green':
+                if n != current and self.get_node_attr(n, 'color') != 'green':
                     self.set_edge_attr(current, n, 'color', 'yellow')
                     self.display()
                     new_estimate = self.get_edge_attr(current, n, 'cost')
-                    if not n in pred or new_estimate < peek(n)[0]:
+                    if not n in pred or new_estimate < get_priority(n):
                         pred[n] = current
                         self.set_node_attr(n, 'color', 'red')
                         self.set_node_attr(n, 'label', new_estimate)
-- 
2.43.0


From 44003ad159181cdc446e9e8ce8e40ac2691c905e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 05/51] fix: hamiltonian() called a method that does not exist
 and never ended without a destination

---
 src/gimpy/graph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index bea341f..731af4f 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -895,13 +895,14 @@ class Graph(object):
         if (distance == 0):
             for i in self.get_node_list():
                 self.get_node(i).set_attr('label', '-')
+                self.get_node(i).set_attr('visited', None)
             self.display()
 
         if destination != None:
             if source == destination and distance == self.get_node_num() - 1:
                 return True
         else:
-            if distance == self.get_node_num():
+            if distance == self.get_node_num() - 1:
                 return True
 
         self.get_node(source).set_attr('visited', True)
@@ -913,7 +914,7 @@ class Graph(object):
         for i in self.get_neighbors(source):
             if self.get_node(i).get_attr('visited') is None:
                 pred[i] = source
-                if (self.tsp(i, destination, distance+1, display = display, 
+                if (self.hamiltonian(i, destination, distance+1, display = display,
                             pred = pred)):
                     return True
         if source in pred: # this is the original source node
-- 
2.43.0


From 944e93bd82fd5d61c3b1440cf316de17c0163467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:09 +0000
Subject: [PATCH 06/51] fix: acyclic_shortest_path failed unless source is the
 only root and the call is the first

---
 src/gimpy/graph.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 731af4f..07f1c46 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -941,18 +941,17 @@ class Graph(object):
         self.search(root, display = display, component = component, q = Queue())
 
     def acyclic_shortest_path(G, source, destination = None):
-        dist = {}
+        dist = {source: 0}
         pred = {}
         order = []
         found = False
+        for n in G.get_node_list():
+            G.set_node_attr(n, 'disc_time', None)
         G.dfs(source, topological_order = order)
-        for j in range(len(G.get_node_list())):
-            m = order[j]
+        for m in order:
             if m == destination:
                 found = True
                 break
-            if len(G.get_in_neighbors(m)) == 0: 
-                dist[m] = 0
             for n in G.get_out_neighbors(m):
                 estimate = dist[m] + G.get_edge_attr(m ,n, "cost")
                 if n not in dist or dist[n] > estimate:
-- 
2.43.0


From a5af5ae3d0f41ad4b168e138fe1970d0b1202276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:09 +0000
Subject: [PATCH 07/51] fix: tarjan() did nothing when called again, leaving
 stale components

---
 src/gimpy/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 07f1c46..f49870f 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -732,6 +732,8 @@ class Graph(object):
         index = 0
         component = 0
         q = []
+        for n in self.get_node_list():
+            self.set_node_attr(n, 'index', None)
         for n in self.get_node_list():
             if self.get_node_attr(n, 'index') is None:
                 index, component = self.strong_connect(q, n, index, component)
-- 
2.43.0


From 7af474c426b2d8d5573b3b6b068607fcb8eefdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:09 +0000
Subject: [PATCH 08/51] fix: floyd_warshall_get_path repeated intermediate
 nodes and failed for i == j

---
 src/gimpy/graph.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index f49870f..b4b3f45 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2153,12 +2153,11 @@ After installation, ensure that the PATH variable is properly set.''')
         '''
         if distance[(i,j)]=='infinity':
             return None
+        if i==j:
+            return [i]
         k = nextn[(i,j)]
         path = self.floyd_warshall_get_path
-        if i==k:
-            return [i, j]
-        else:
-            return path(distance, nextn, i,k) + [k] + path(distance, nextn, k,j)
+        return path(distance, nextn, i, k) + [j]
 
     def floyd_warshall_get_cycle(self, distance, nextn, element = None):
         '''
-- 
2.43.0


From 39a877dbd51cf8a0c4523f0ff87b582ad2ea6ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:09 +0000
Subject: [PATCH 09/51] fix: floyd_warshall gave a positive distance (or no
 cycle) for nodes with a self-loop

---
 src/gimpy/graph.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index b4b3f45..8d622f2 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2105,13 +2105,16 @@ After installation, ensure that the PATH variable is properly set.''')
         for i in nl:
             distance[(i,i)] = 0
         for e in el:
-            distance[(e[0],e[1])] = self.get_edge_cost(e)
+            # a self-loop matters only if it is a negative cycle
+            if e[0]!=e[1] or self.get_edge_cost(e) < 0:
+                distance[(e[0],e[1])] = self.get_edge_cost(e)
         # == end of distance initialization
         # initialize next
         nextn = {}
         for i in nl:
             for j in nl:
-                if i==j or distance[(i,j)]=='infinity':
+                if distance[(i,j)]=='infinity' or (i==j and
+                                                   distance[(i,j)]==0):
                     nextn[(i,j)] = None
                 else:
                     nextn[(i,j)] = i
-- 
2.43.0


From 444e56cf5a7a9b3004a2f9bef3d1edf048579a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:09 +0000
Subject: [PATCH 10/51] fix: get_negative_cycle raised IndexError on a graph
 without nodes

---
 src/gimpy/graph.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 8d622f2..b6788ed 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2063,8 +2063,6 @@ After installation, ensure that the PATH variable is properly set.''')
             Returns a list of nodes in the cycle if a negative cycle exists,
             returns None otherwise.
         '''
-        nl = self.get_node_list()
-        i = nl[0]
         (valid, distance, nextn) = self.floyd_warshall()
         if not valid:
             cycle = self.floyd_warshall_get_cycle(distance, nextn)
-- 
2.43.0


From c29202de9a8c7f703be2f20294ddfb7640df5bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:09 +0000
Subject: [PATCH 11/51] fix: fifo_label_correcting compared a number with the
 string inf

---
 src/gimpy/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index b6788ed..51b1955 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2256,7 +2256,7 @@ After installation, ensure that the PATH variable is properly set.''')
                 distance_j = self.get_node(j).get_attr('distance')
                 distance_i = self.get_node(i).get_attr('distance')
                 c_ij = self.get_edge_attr(i, j, 'cost')
-                if distance_j > distance_i + c_ij:
+                if distance_j == 'inf' or distance_j > distance_i + c_ij:
                     self.get_node(j).set_attr('distance', distance_i+c_ij)
                     if j in pred:
                         pred[j] = i
-- 
2.43.0


From cf70b739dc59d67083a6ae544aa70872f29305b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:09 +0000
Subject: [PATCH 12/51] fix: degree and diameter methods failed without an
 explicit type, get_degrees returned None

---
 src/gimpy/graph.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 51b1955..a7fa80b 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -3377,7 +3377,7 @@ After installation, ensure that the PATH variable is properly set.''')
             are corresponding degrees.
         '''
         degree = {}
-        if self.attr['type'] is not DIRECTED_GRAPH:
+        if self.graph_type != DIRECTED_GRAPH:
             for n in self.get_node_list():
                 degree[n] = len(self.get_neighbors(n))
             return degree
@@ -3385,6 +3385,7 @@ After installation, ensure that the PATH variable is properly set.''')
             for n in self.get_node_list():
                 degree[n] = (len(self.get_in_neighbors(n)) +
                              len(self.get_out_neighbors(n)))
+            return degree
 
     def get_in_degrees(self):
         '''
@@ -3397,7 +3398,7 @@ After installation, ensure that the PATH variable is properly set.''')
             are corresponding degrees.
         '''
         degree = {}
-        if self.attr['type'] is not DIRECTED_GRAPH:
+        if self.graph_type != DIRECTED_GRAPH:
             print('This function only works for directed graphs')
             return
         for n in self.get_node_list():
@@ -3415,7 +3416,7 @@ After installation, ensure that the PATH variable is properly set.''')
             are corresponding degrees.
         '''
         degree = {}
-        if self.attr['type'] is not DIRECTED_GRAPH:
+        if self.graph_type != DIRECTED_GRAPH:
             print('This function only works for directed graphs')
             return
         for n in self.get_node_list():
@@ -3435,7 +3436,7 @@ After installation, ensure that the PATH variable is properly set.''')
             Returns diameter of the graph.
         '''
 
-        if self.attr['type'] is not UNDIRECTED_GRAPH:
+        if self.graph_type != UNDIRECTED_GRAPH:
             print('This function only works for undirected graphs')
             return
         diameter = 'infinity'
-- 
2.43.0


From f2caa3678836ad19a906e67e5a7abfba72a41421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:09 +0000
Subject: [PATCH 13/51] fix: find_feasible_flow failed on all-zero demands and
 accepted unmet demand

---
 src/gimpy/graph.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index a7fa80b..eeaf914 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1634,6 +1634,8 @@ class Graph(object):
         # establish a feasible flow in the network, to do this add nodes s and
         # t and solve a max flow problem.
         nl = self.get_node_list()
+        self.add_node('s')
+        self.add_node('t')
         for i in nl:
             b_i = self.get_node(i).get_attr('demand')
             if b_i > 0:
@@ -1646,9 +1648,10 @@ class Graph(object):
         self.max_flow('s', 't', 'off')
         # check if all demand is satisfied, i.e. the min cost problem is
         # feasible or not
-        for i in self.neighbors['s']:
-            flow = self.get_edge_attr('s', i, 'flow')
-            capacity = self.get_edge_attr('s', i, 'capacity')
+        for e in ([('s', i) for i in self.neighbors['s']] +
+                  [(i, 't') for i in self.in_neighbors['t']]):
+            flow = self.get_edge_attr(e[0], e[1], 'flow')
+            capacity = self.get_edge_attr(e[0], e[1], 'capacity')
             if flow != capacity:
                 self.del_node('s')
                 self.del_node('t')
-- 
2.43.0


From 378f0dcc361959966a4b9efef75d05c8cb5970ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:09 +0000
Subject: [PATCH 14/51] fix: network simplex failed for node names that are not
 small integers

---
 src/gimpy/graph.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index eeaf914..47b95e3 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2884,8 +2884,8 @@ After installation, ensure that the PATH variable is properly set.''')
                 depth[n] = depth[current]+1
                 q.append(n)
         for i in range(len(sequence)-1):
-            self.get_node(sequence[i]).set_attr('thread', int(sequence[i+1]))
-        self.get_node(sequence[-1]).set_attr('thread', int(sequence[0]))
+            self.get_node(sequence[i]).set_attr('thread', sequence[i+1])
+        self.get_node(sequence[-1]).set_attr('thread', sequence[0])
         for n in pred:
             self.get_node(n).set_attr('pred', pred[n])
             self.get_node(n).set_attr('depth', depth[n])
@@ -2949,7 +2949,7 @@ After installation, ensure that the PATH variable is properly set.''')
         pred = {nl[0]:None}
         for n in nl:
             self.get_node(n).set_attr('component', None)
-        component_nr = int(nl[0])
+        component_nr = nl[0]
         self.get_node(nl[0]).set_attr('component', component_nr)
         while True:
             while q:
@@ -2989,7 +2989,7 @@ After installation, ensure that the PATH variable is properly set.''')
                     depth = {n:0}
                     pred = {n:None}
                     visited = []
-                    component_nr = int(n)
+                    component_nr = n
                     self.get_node(n).set_attr('component', component_nr)
                     flag = True
                     break
@@ -3042,7 +3042,7 @@ After installation, ensure that the PATH variable is properly set.''')
         '''
         self.get_node(root).set_attr('potential', 0)
         j = t.get_node(root).get_attr('thread')
-        while j is not root:
+        while j != root:
             i = t.get_node(j).get_attr('pred')
             potential_i = self.get_node(i).get_attr('potential')
             if (i,j) in self.edge_attr:
@@ -3074,7 +3074,7 @@ After installation, ensure that the PATH variable is properly set.''')
         cycle = []
         li = [k]
         lj = [j]
-        while i is not j:
+        while i != j:
             depth_i = t.get_node(i).get_attr('depth')
             depth_j = t.get_node(j).get_attr('depth')
             if depth_i > depth_j:
-- 
2.43.0


From 82183ffc16bbb62952b5b21e7b7bd51fee67879a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 15/51] fix: Tree traversals without a root argument used the
 Node object as a name

---
 src/gimpy/tree.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gimpy/tree.py b/src/gimpy/tree.py
index 169f471..4b44a1e 100755
--- a/src/gimpy/tree.py
+++ b/src/gimpy/tree.py
@@ -118,7 +118,7 @@ class Tree(Graph):
             display: Display argument.
         '''
         if root == None:
-            root = self.root
+            root = self.root.name
         if display == None:
             display = self.attr['display']
         self.traverse(root, display, Stack())
@@ -137,7 +137,7 @@ class Tree(Graph):
             display: Display argument.
         '''
         if root == None:
-            root = self.root
+            root = self.root.name
         if display == None:
             display = self.attr['display']
         self.traverse(root, display, Queue())
@@ -159,7 +159,7 @@ class Tree(Graph):
             Queue().
         '''
         if root == None:
-            root = self.root
+            root = self.root.name
         if display == None:
             display = self.attr['display']
         if isinstance(q, Queue):
@@ -359,7 +359,7 @@ class BinaryTree(Tree):
             Acceptable arguments are 'L' and 'R'.
         '''
         if root == None:
-            root = self.root
+            root = self.root.name
         self.traverse(root, display, Stack(), priority)
 
     def bfs(self, root = None, display = None, priority = 'L'):
@@ -376,7 +376,7 @@ class BinaryTree(Tree):
             Acceptable arguments are 'L' and 'R'.
         '''
         if root == None:
-            root = self.root
+            root = self.root.name
         self.traverse(root, display, Queue(), priority)
 
     def traverse(self, root = None, display = None, q = Stack(),
@@ -399,7 +399,7 @@ class BinaryTree(Tree):
         '''
         old_display = None
         if root == None:
-            root = self.root
+            root = self.root.name
         if display == None:
             display = self.attr['display']
         else:
-- 
2.43.0


From 88318a698b4af0dfe6752ea10dc9fcb8c21a74e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 16/51] fix: a rejected add_left_child/add_right_child left a
 dangling child entry

---
 src/gimpy/tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gimpy/tree.py b/src/gimpy/tree.py
index 4b44a1e..89585c4 100755
--- a/src/gimpy/tree.py
+++ b/src/gimpy/tree.py
@@ -223,8 +223,8 @@ class BinaryTree(Tree):
             msg = "Right child already exists for node " + str(parent)
             raise Exception(msg)
         attrs['direction'] = 'R'
-        self.set_node_attr(parent, 'Rchild', n)
         self.add_child(n, parent, **attrs)
+        self.set_node_attr(parent, 'Rchild', n)
 
     def add_left_child(self, n, parent, **attrs):
         '''
@@ -242,8 +242,8 @@ class BinaryTree(Tree):
             msg = "Right child already exists for node " + str(parent)
             raise Exception(msg)
         attrs['direction'] = 'L'
-        self.set_node_attr(parent, 'Lchild', n)
         self.add_child(n, parent, **attrs)
+        self.set_node_attr(parent, 'Lchild', n)
 
     def get_right_child(self, n):
         '''
-- 
2.43.0


From 8389c24da3ab77f6365fcaaa452e0e10e3bc0c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 17/51] fix: BinaryTree.del_node failed on the root

---
 src/gimpy/tree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gimpy/tree.py b/src/gimpy/tree.py
index 89585c4..1e40e40 100755
--- a/src/gimpy/tree.py
+++ b/src/gimpy/tree.py
@@ -290,9 +290,11 @@ class BinaryTree(Tree):
             n: Node name.
         '''
         parent = self.get_node_attr(n, 'parent')
-        if self.get_node_attr(n, 'direction') == 'R':
+        if parent is None:
+            self.root = None
+        elif self.get_node_attr(n, 'direction') == 'R':
             self.set_node_attr(parent, 'Rchild', None)
-        else:
+        elif self.get_node_attr(n, 'direction') == 'L':
             self.set_node_attr(parent, 'Lchild', None)
         Graph.del_node(self, n)
 
-- 
2.43.0


From 037c599a85db6ed511e2ae5be0679ee7a6c4d421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 18/51] fix: postordereval and printexp treated a child or a
 subresult 0 as missing

---
 src/gimpy/tree.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gimpy/tree.py b/src/gimpy/tree.py
index 1e40e40..3d882f0 100755
--- a/src/gimpy/tree.py
+++ b/src/gimpy/tree.py
@@ -438,7 +438,7 @@ class BinaryTree(Tree):
             root = self.root
         if display == None:
             display = self.attr['display']
-        if self.get_left_child(root):
+        if self.get_left_child(root) is not None:
             if display:
                 self.display(highlight = [root])
             print('(', end=' ')
@@ -457,7 +457,7 @@ class BinaryTree(Tree):
         sys.stdout.flush()
         if display:
                 self.display(highlight = [root])
-        if self.get_right_child(root):
+        if self.get_right_child(root) is not None:
             self.printexp(display, self.get_right_child(root))
             print(')', end=' ')
             sys.stdout.flush()
@@ -473,7 +473,7 @@ class BinaryTree(Tree):
                  '/':operator.truediv}
         res1 = None
         res2 = None
-        if self.get_left_child(root):
+        if self.get_left_child(root) is not None:
             if display:
                 self.display(highlight = [root])
             res1 = self.postordereval(display, self.get_left_child(root))
@@ -490,9 +490,9 @@ class BinaryTree(Tree):
         sys.stdout.flush()
         if display:
                 self.display(highlight = [root])
-        if self.get_right_child(root):
+        if self.get_right_child(root) is not None:
             res2 = self.postordereval(display, self.get_right_child(root))
-        if res1 and res2:
+        if res1 is not None and res2 is not None:
             result = opers[root_label](res1 , res2)
             print('=', result)
             sys.stdout.flush()
-- 
2.43.0


From 927b963fb1f8b06a11a29cc69be613aa6061cdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 19/51] fix: random() with degree_range failed without labels
 and added no edges without lengths

---
 src/gimpy/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 47b95e3..c428b66 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -3231,8 +3231,8 @@ After installation, ensure that the PATH variable is properly set.''')
                                 self.add_edge(m, n, cost = length, **edge_format)
                                 if add_labels:
                                     self.set_edge_attr(m, n, 'label', str(length))
-                                else:
-                                    self.add_edge(m, n, **edge_format)
+                            else:
+                                self.add_edge(m, n, **edge_format)
                         i += 1
             elif density != None:
                 for m in range(numnodes):
-- 
2.43.0


From 112f2d0ac8de995c84596644e5677fb977a6ab34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 20/51] fix: random(parallel_allowed=True) added an edge twice
 on undirected graphs

---
 src/gimpy/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index c428b66..89c9e3c 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -3223,7 +3223,7 @@ After installation, ensure that the PATH variable is properly set.''')
                     i = 0
                     while i < degree:
                         n = random.randint(1, numnodes-1)
-                        if (((m,n) not in self.edge_attr and m != n) and
+                        if ((not self.check_edge(m, n) and m != n) and
                             (parallel_allowed or (n, m) not in self.edge_attr)):
                             if length_range is not None:
                                 length = random.randint(length_range[0],
@@ -3276,7 +3276,7 @@ After installation, ensure that the PATH variable is properly set.''')
                                              (self.get_node(n).get_attr('locationy') -
                                               self.get_node(m).get_attr('locationy')) ** 2) ** 0.5)*scale_cost,
                                            0)
-                            if (((m,n) not in self.edge_attr and m != n) and
+                            if ((not self.check_edge(m, n) and m != n) and
                                 (parallel_allowed or (n, m) not in self.edge_attr)):
                                 neighbors.append(random.randint(0, numnodes-1))
                                 self.add_edge(m, n, cost = int(length), **edge_format)
-- 
2.43.0


From f37ec0c5dc03ce9cc3956b3ec8cd4dcd2c47f008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 21/51] fix: random(Euclidean=True, node_selection=random) used
 an undefined node

---
 src/gimpy/graph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 89c9e3c..c2f4b89 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -3271,6 +3271,7 @@ After installation, ensure that the PATH variable is properly set.''')
                     neighbors = []
                     if node_selection == 'random':
                         while i < degree:
+                            n = random.randint(0, numnodes-1)
                             length = round((((self.get_node(n).get_attr('locationx') -
                                               self.get_node(m).get_attr('locationx')) ** 2 +
                                              (self.get_node(n).get_attr('locationy') -
@@ -3278,11 +3279,11 @@ After installation, ensure that the PATH variable is properly set.''')
                                            0)
                             if ((not self.check_edge(m, n) and m != n) and
                                 (parallel_allowed or (n, m) not in self.edge_attr)):
-                                neighbors.append(random.randint(0, numnodes-1))
+                                neighbors.append(n)
                                 self.add_edge(m, n, cost = int(length), **edge_format)
                                 if add_labels:
                                     self.set_edge_attr(m, n, 'label', str(int(length)))
-                                i += 1
+                            i += 1
                     elif node_selection == 'closest':
                         lengths = []
                         for n in range(numnodes):
-- 
2.43.0


From 8cd7784483d647f8b31dafcd95d0307343701d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 22/51] fix: random(Euclidean=True) ignored parallel_allowed
 and failed for degrees above the node count

---
 src/gimpy/graph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index c2f4b89..f1ac127 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -3293,8 +3293,9 @@ After installation, ensure that the PATH variable is properly set.''')
                                                         self.get_node(m).get_attr('locationy')) ** 2) ** 0.5)*scale_cost,
                                                      0)))
                         lengths.sort(key = lambda l : l[1])
-                        for i in range(degree+1):
-                            if not (lengths[i][0] == m or self.check_edge(m, lengths[i][0])):
+                        for i in range(min(degree+1, numnodes)):
+                            if not (lengths[i][0] == m or self.check_edge(m, lengths[i][0]) or
+                                    (not parallel_allowed and self.check_edge(lengths[i][0], m))):
                                 self.add_edge(m, lengths[i][0], cost = int(lengths[i][1]), **edge_format)
                                 if add_labels:
                                     self.set_edge_attr(m, lengths[i][0], 'label', str(int(lengths[i][1])))
-- 
2.43.0


From f21fef2d25c13a718f76cd58ce7c8611dde0b24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 23/51] fix: create_cluster overwrote earlier clusters and
 wrote into its argument

---
 src/gimpy/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index f1ac127..b80171a 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -3478,14 +3478,14 @@ After installation, ensure that the PATH variable is properly set.''')
             may change.
         '''
         if 'name' in cluster_attrs:
-            if 'name' in self.cluster:
+            if cluster_attrs['name'] in self.cluster:
                 raise Exception('A cluster with name %s already exists!' %cluster_attrs['name'])
             else:
                 name = cluster_attrs['name']
         else:
             name = 'c%d' %self.attr['cluster_count']
             self.attr['cluster_count'] += 1
-            cluster_attrs['name'] = name
+            cluster_attrs = dict(cluster_attrs, name=name)
         #cluster_attrs['name'] =
         self.cluster[name] = {'node_list':node_list,
                               'attrs':copy.deepcopy(cluster_attrs),
-- 
2.43.0


From f2ed89f70a91f5a88d35bb22ffa7f3f0e26bf8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 24/51] fix: to_string failed for an edge inside a cluster of
 an undirected graph, automatic cluster names could collide

---
 src/gimpy/graph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index b80171a..b2bc1b3 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -665,7 +665,7 @@ class Graph(object):
             # process cluster edges
             for n in self.cluster[c]['node_list']:
                 for m in self.cluster[c]['node_list']:
-                    if self.check_edge(n,m):
+                    if (n,m) in self.edge_attr and (n,m) not in processed_edges:
                         data = self.edge_to_string((n,m))
                         graph.append(data + ';\n')
                         processed_edges[(n,m)]=None
@@ -3484,6 +3484,9 @@ After installation, ensure that the PATH variable is properly set.''')
                 name = cluster_attrs['name']
         else:
             name = 'c%d' %self.attr['cluster_count']
+            while name in self.cluster:
+                self.attr['cluster_count'] += 1
+                name = 'c%d' %self.attr['cluster_count']
             self.attr['cluster_count'] += 1
             cluster_attrs = dict(cluster_attrs, name=name)
         #cluster_attrs['name'] =
-- 
2.43.0


From 731058dcfcfa0df280b34cbc61a10ca702bd101b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 25/51] fix: bfs() ran the depth-first algorithm on a queue and
 left wrong distances

---
 src/gimpy/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index b2bc1b3..914636d 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -940,7 +940,8 @@ class Graph(object):
             Nodes will have 'component' attribute that will have component
             number as value.
         '''
-        self.search(root, display = display, component = component, q = Queue())
+        self.search(root, display = display, component = component, q = Queue(),
+                    algo = 'BFS')
 
     def acyclic_shortest_path(G, source, destination = None):
         dist = {source: 0}
-- 
2.43.0


From 2a2804eec09b623990f0f44deb25a1e395eea415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:47 +0000
Subject: [PATCH 26/51] fix: max_flow_preflowpush never ended for a source with
 a self-loop (HighestLabel)

---
 src/gimpy/graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 914636d..4bbb04f 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1399,6 +1399,9 @@ class Graph(object):
         elif algo == 'HighestLabel':
             q = PriorityQueue()
         for n in self.get_neighbors(source):
+            if n == source:
+                # a self-loop carries no flow, the source must not be queued
+                continue
             capacity = self.get_edge_attr(source, n, 'capacity')
             self.set_edge_attr(source, n, 'flow', capacity)
             self.set_node_attr(n, 'excess', capacity)
-- 
2.43.0


From 39b356a97cbc7447f440acf577d17ac3a4b3b140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:07 +0000
Subject: [PATCH 27/51] fix: network simplex never ended when an arc without
 capacity had a favourable reduced cost

---
 src/gimpy/graph.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 4bbb04f..25f66fa 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2693,7 +2693,8 @@ After installation, ensure that the PATH variable is properly set.''')
             # pick the maximum violation
             candidate = {}
             for e in self.edge_attr:
-                if e in t.edge_attr:
+                # an arc without capacity can not carry flow, it never enters
+                if e in t.edge_attr or self.edge_attr[e]['capacity'] == 0:
                     continue
                 flow_ij = self.edge_attr[e]['flow']
                 potential_i = self.get_node(e[0]).get_attr('potential')
@@ -2718,7 +2719,8 @@ After installation, ensure that the PATH variable is properly set.''')
         elif pivot=='first_eligible':
             # pick the first eligible
             for e in self.edge_attr:
-                if e in t.edge_attr:
+                # an arc without capacity can not carry flow, it never enters
+                if e in t.edge_attr or self.edge_attr[e]['capacity'] == 0:
                     continue
                 flow_ij = self.edge_attr[e]['flow']
                 potential_i = self.get_node(e[0]).get_attr('potential')
@@ -2754,7 +2756,8 @@ After installation, ensure that the PATH variable is properly set.''')
             conditions are satisfied), else returns False
         '''
         for e in self.edge_attr:
-            if e in t.edge_attr:
+            # an arc without capacity can not carry flow, it never enters
+            if e in t.edge_attr or self.edge_attr[e]['capacity'] == 0:
                 continue
             flow_ij = self.edge_attr[e]['flow']
             potential_i = self.get_node(e[0]).get_attr('potential')
-- 
2.43.0


From 57de36c28fdca5d4ab824d14f9e6ffe0942bd84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:30 +0000
Subject: [PATCH 28/51] fix: BinaryTree.del_node failed for a node whose parent
 had been deleted

---
 src/gimpy/tree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/gimpy/tree.py b/src/gimpy/tree.py
index 3d882f0..8257bf1 100755
--- a/src/gimpy/tree.py
+++ b/src/gimpy/tree.py
@@ -290,8 +290,13 @@ class BinaryTree(Tree):
             n: Node name.
         '''
         parent = self.get_node_attr(n, 'parent')
+        # the children, if any, stay in the tree without a parent
+        for child in (self.get_left_child(n), self.get_right_child(n)):
+            if child is not None:
+                self.set_node_attr(child, 'parent', None)
         if parent is None:
-            self.root = None
+            if self.root is not None and self.root.name == n:
+                self.root = None
         elif self.get_node_attr(n, 'direction') == 'R':
             self.set_node_attr(parent, 'Rchild', None)
         elif self.get_node_attr(n, 'direction') == 'L':
-- 
2.43.0


From 328da5fdeb1b3c4768ad815807cde8f8943a9feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:44 +0000
Subject: [PATCH 29/51] fix: random(Euclidean=True) exceeded the degree when
 another node lies at distance 0

---
 src/gimpy/graph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 25f66fa..dbb3a58 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -3294,13 +3294,15 @@ After installation, ensure that the PATH variable is properly set.''')
                     elif node_selection == 'closest':
                         lengths = []
                         for n in range(numnodes):
+                            if n == m:
+                                continue
                             lengths.append((n, round((((self.get_node(n).get_attr('locationx') -
                                                         self.get_node(m).get_attr('locationx')) ** 2 +
                                                        (self.get_node(n).get_attr('locationy') -
                                                         self.get_node(m).get_attr('locationy')) ** 2) ** 0.5)*scale_cost,
                                                      0)))
                         lengths.sort(key = lambda l : l[1])
-                        for i in range(min(degree+1, numnodes)):
+                        for i in range(min(degree, numnodes-1)):
                             if not (lengths[i][0] == m or self.check_edge(m, lengths[i][0]) or
                                     (not parallel_allowed and self.check_edge(lengths[i][0], m))):
                                 self.add_edge(m, lengths[i][0], cost = int(lengths[i][1]), **edge_format)
-- 
2.43.0


From a430b758339f88d81c754770aad4c5515b883032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:38 +0000
Subject: [PATCH 30/51] fix: needs_quotes left commas, inner quotes and a
 trailing newline unquoted

---
 src/gimpy/global_constants.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gimpy/global_constants.py b/src/gimpy/global_constants.py
index 316819c..39f10e7 100644
--- a/src/gimpy/global_constants.py
+++ b/src/gimpy/global_constants.py
@@ -120,12 +120,12 @@ DOT2TEX_TEMPLATE = r'''
 
 # following globals and two methods are from pydot
 DOT_KEYWORDS = ['graph', 'subgraph', 'digraph', 'node', 'edge', 'strict']
-ID_RE_ALPHA_NUMS = re.compile('^[_a-zA-Z][a-zA-Z0-9_,]*$', re.UNICODE)
-ID_RE_ALPHA_NUMS_WITH_PORTS = re.compile('^[_a-zA-Z][a-zA-Z0-9_,:\"]*[a-zA-Z0-9_,\"]+$', re.UNICODE)
-ID_RE_NUM = re.compile('^[0-9,]+$', re.UNICODE)
-ID_RE_WITH_PORT = re.compile('^([^:]*):([^:]*)$', re.UNICODE)
-ID_RE_DBL_QUOTED = re.compile('^\".*\"$', re.S|re.UNICODE)
-ID_RE_HTML = re.compile('^<.*>$', re.S|re.UNICODE)
+ID_RE_ALPHA_NUMS = re.compile(r'^[_a-zA-Z][a-zA-Z0-9_]*\Z', re.UNICODE)
+ID_RE_ALPHA_NUMS_WITH_PORTS = re.compile(r'^[_a-zA-Z][a-zA-Z0-9_]*(:([_a-zA-Z][a-zA-Z0-9_]*|[0-9]+|"[a-zA-Z0-9_,]*"))+\Z', re.UNICODE)
+ID_RE_NUM = re.compile(r'^[0-9]+\Z', re.UNICODE)
+ID_RE_WITH_PORT = re.compile(r'^([^:]*):([^:]*)\Z', re.UNICODE)
+ID_RE_DBL_QUOTED = re.compile(r'^\".*\"\Z', re.S|re.UNICODE)
+ID_RE_HTML = re.compile(r'^<.*>\Z', re.S|re.UNICODE)
 
 def quote_if_necessary(s):
     if isinstance(s, bool):
-- 
2.43.0


From 9a474ca6b7b98c42194b377d1b007868cd4e17cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:38 +0000
Subject: [PATCH 31/51] fix: quote_if_necessary let a backslash escape the
 closing quote

---
 src/gimpy/global_constants.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/gimpy/global_constants.py b/src/gimpy/global_constants.py
index 39f10e7..2128a0f 100644
--- a/src/gimpy/global_constants.py
+++ b/src/gimpy/global_constants.py
@@ -137,12 +137,14 @@ def quote_if_necessary(s):
     if not s:
         return s
     if needs_quotes(s):
+        # a backslash starts an escape sequence, unless it would escape the
+        # quote that follows (or closes the string), a space or a line break
         replace = {'"'  : r'\"',
                    "\n" : r'\n',
                    "\r" : r'\r',
-                   "\\ " : r'\\ '}
-        for (a,b) in list(replace.items()):
-            s = s.replace(a, b)
+                   "\\" : r'\\'}
+        s = re.sub(r'\\[^" \n\r]|["\n\r\\]',
+                   lambda m: replace.get(m.group(), m.group()), s)
         return '"' + s + '"'
     return s
 
-- 
2.43.0


From e8315204650797e948c82997181ce45c0d5a914c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:38 +0000
Subject: [PATCH 32/51] fix: quote_if_necessary returned an empty text for an
 empty string

---
 src/gimpy/global_constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gimpy/global_constants.py b/src/gimpy/global_constants.py
index 2128a0f..e413a3d 100644
--- a/src/gimpy/global_constants.py
+++ b/src/gimpy/global_constants.py
@@ -135,7 +135,7 @@ def quote_if_necessary(s):
     if not isinstance(s, basestring):
         return s
     if not s:
-        return s
+        return '""'
     if needs_quotes(s):
         # a backslash starts an escape sequence, unless it would escape the
         # quote that follows (or closes the string), a space or a line break
-- 
2.43.0


From 419880ab36efbd424b5ffa55c1a591a19a2ca400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:38 +0000
Subject: [PATCH 33/51] fix: to_string did not quote graph names, cluster names
 and cluster attributes

---
 src/gimpy/graph.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index dbb3a58..172fded 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -632,7 +632,7 @@ class Graph(object):
         '''
         graph = list()
         processed_edges = {}
-        graph.append('%s %s {\n' %(self.graph_type, self.name))
+        graph.append('%s %s {\n' %(self.graph_type, quote_if_necessary(str(self.name))))
         for a in self.attr:
             if a not in GRAPH_ATTRIBUTES:
                 continue
@@ -644,16 +644,13 @@ class Graph(object):
             graph.append( ';\n' )
         # clusters
         for c in self.cluster:
-            graph.append('subgraph cluster_%s {\n' %c)
+            graph.append('subgraph %s {\n' %quote_if_necessary('cluster_%s' %c))
             for a in self.cluster[c]['attrs']:
-                if a=='label':
-                    graph.append(a+'='+quote_if_necessary(self.cluster[c]['attrs'][a])+';\n')
-                    continue
-                graph.append(a+'='+self.cluster[c]['attrs'][a]+';\n')
+                graph.append(a+'='+quote_if_necessary(str(self.cluster[c]['attrs'][a]))+';\n')
             if len(self.cluster[c]['node_attrs'])!=0:
                 graph.append('node [')
             for a in self.cluster[c]['node_attrs']:
-                graph.append(a+'='+self.cluster[c]['node_attrs'][a])
+                graph.append(a+'='+quote_if_necessary(str(self.cluster[c]['node_attrs'][a])))
                 graph.append(',')
             if len(self.cluster[c]['node_attrs'])!=0:
                 graph.pop()
-- 
2.43.0


From bf8d1e4684e5db44c0e8014b6ef97cb874fbe2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:38 +0000
Subject: [PATCH 34/51] fix: to_string failed after a node of a cluster was
 deleted

---
 src/gimpy/graph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 172fded..303c59d 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -325,6 +325,9 @@ class Graph(object):
             del self.in_neighbors[name]
         del self.neighbors[name]
         del self.nodes[name]
+        for c in self.cluster:
+            while name in self.cluster[c]['node_list']:
+                self.cluster[c]['node_list'].remove(name)
 
     def add_edge(self, name1, name2, **attr):
         '''
@@ -3496,7 +3499,7 @@ After installation, ensure that the PATH variable is properly set.''')
             self.attr['cluster_count'] += 1
             cluster_attrs = dict(cluster_attrs, name=name)
         #cluster_attrs['name'] =
-        self.cluster[name] = {'node_list':node_list,
+        self.cluster[name] = {'node_list':list(node_list),
                               'attrs':copy.deepcopy(cluster_attrs),
                               'node_attrs':copy.deepcopy(node_attrs)}
 
-- 
2.43.0


From c1f6550aa274e58f253fe12cdf74477c039046cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:27 +0000
Subject: [PATCH 35/51] fix: attribute values with a colon were written without
 quotes

---
 src/gimpy/global_constants.py | 14 ++++++++++----
 src/gimpy/graph.py            | 14 +++++++-------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/gimpy/global_constants.py b/src/gimpy/global_constants.py
index e413a3d..7e92270 100644
--- a/src/gimpy/global_constants.py
+++ b/src/gimpy/global_constants.py
@@ -127,7 +127,7 @@ ID_RE_WITH_PORT = re.compile(r'^([^:]*):([^:]*)\Z', re.UNICODE)
 ID_RE_DBL_QUOTED = re.compile(r'^\".*\"\Z', re.S|re.UNICODE)
 ID_RE_HTML = re.compile(r'^<.*>\Z', re.S|re.UNICODE)
 
-def quote_if_necessary(s):
+def quote_if_necessary(s, ports=True):
     if isinstance(s, bool):
         if s is True:
             return 'True'
@@ -136,7 +136,7 @@ def quote_if_necessary(s):
         return s
     if not s:
         return '""'
-    if needs_quotes(s):
+    if needs_quotes(s, ports):
         # a backslash starts an escape sequence, unless it would escape the
         # quote that follows (or closes the string), a space or a line break
         replace = {'"'  : r'\"',
@@ -148,10 +148,12 @@ def quote_if_necessary(s):
         return '"' + s + '"'
     return s
 
-def needs_quotes(s):
+def needs_quotes(s, ports=True):
     """Checks whether a string is a dot language ID.
     It will check whether the string is solely composed
     by the characters allowed in an ID or not.
+    A node name may be followed by ports, an attribute value may not
+    (ports=False).
     If the string is one of the reserved keywords it will
     need quotes too but the user will need to add them
     manually.
@@ -167,9 +169,13 @@ def needs_quotes(s):
     chars = [ord(c) for c in s if ord(c)>0x7f or ord(c)==0]
     if chars and not ID_RE_DBL_QUOTED.match(s) and not ID_RE_HTML.match(s):
         return True
-    for test_re in [ID_RE_ALPHA_NUMS, ID_RE_NUM, ID_RE_DBL_QUOTED, ID_RE_HTML, ID_RE_ALPHA_NUMS_WITH_PORTS]:
+    for test_re in [ID_RE_ALPHA_NUMS, ID_RE_NUM, ID_RE_DBL_QUOTED, ID_RE_HTML]:
         if test_re.match(s):
             return False
+    if not ports:
+        return True
+    if ID_RE_ALPHA_NUMS_WITH_PORTS.match(s):
+        return False
     m = ID_RE_WITH_PORT.match(s)
     if m:
         return needs_quotes(m.group(1)) or needs_quotes(m.group(2))
diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 303c59d..07a5aca 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -173,7 +173,7 @@ class Node(object):
             flag = True
             node.append(a)
             node.append('=')
-            node.append(quote_if_necessary(str(self.attr[a])))
+            node.append(quote_if_necessary(str(self.attr[a]), ports=False))
             node.append(', ')
         if flag is True:
             node = node[:-1]
@@ -617,7 +617,7 @@ class Graph(object):
         for a in self.edge_attr[e]:
             edge.append(a)
             edge.append('=')
-            edge.append(quote_if_necessary(str(self.edge_attr[e][a])))
+            edge.append(quote_if_necessary(str(self.edge_attr[e][a]), ports=False))
             edge.append(', ')
         edge = edge[:-1]
         edge.append(']')
@@ -635,25 +635,25 @@ class Graph(object):
         '''
         graph = list()
         processed_edges = {}
-        graph.append('%s %s {\n' %(self.graph_type, quote_if_necessary(str(self.name))))
+        graph.append('%s %s {\n' %(self.graph_type, quote_if_necessary(str(self.name), ports=False)))
         for a in self.attr:
             if a not in GRAPH_ATTRIBUTES:
                 continue
             val = self.attr[a]
             if val is not None:
-                graph.append( '%s=%s' % (a, quote_if_necessary(val)) )
+                graph.append( '%s=%s' % (a, quote_if_necessary(val, ports=False)) )
             else:
                 graph.append(a)
             graph.append( ';\n' )
         # clusters
         for c in self.cluster:
-            graph.append('subgraph %s {\n' %quote_if_necessary('cluster_%s' %c))
+            graph.append('subgraph %s {\n' %quote_if_necessary('cluster_%s' %c, ports=False))
             for a in self.cluster[c]['attrs']:
-                graph.append(a+'='+quote_if_necessary(str(self.cluster[c]['attrs'][a]))+';\n')
+                graph.append(a+'='+quote_if_necessary(str(self.cluster[c]['attrs'][a]), ports=False)+';\n')
             if len(self.cluster[c]['node_attrs'])!=0:
                 graph.append('node [')
             for a in self.cluster[c]['node_attrs']:
-                graph.append(a+'='+quote_if_necessary(str(self.cluster[c]['node_attrs'][a])))
+                graph.append(a+'='+quote_if_necessary(str(self.cluster[c]['node_attrs'][a]), ports=False))
                 graph.append(',')
             if len(self.cluster[c]['node_attrs'])!=0:
                 graph.pop()
-- 
2.43.0


From 19ed2614e27cc997a0e6e160332d80c86fec737a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 36/51] fix: a graph type given as an equal but not identical
 string broke the graph

---
 src/gimpy/graph.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 07a5aca..1f0f9a2 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -229,7 +229,7 @@ class Graph(object):
         # adjacency list of nodes, it is a dictionary of lists
         self.neighbors = {}
         # if the graph is undirected we do not need in_neighbor
-        if self.graph_type is DIRECTED_GRAPH:
+        if self.graph_type == DIRECTED_GRAPH:
             self.in_neighbors = {}
         self.nodes = {}
         self.edge_connect_symbol = EDGE_CONNECT_SYMBOL[self.graph_type]
@@ -270,7 +270,7 @@ class Graph(object):
         if isinstance(item, tuple):
             name1 = item[0]
             name2 = item[1]
-            if self.graph_type is DIRECTED_GRAPH:
+            if self.graph_type == DIRECTED_GRAPH:
                 return (name1, name2) in self.edge_attr
             else:
                 return ((name1, name2) in self.edge_attr or
@@ -297,7 +297,7 @@ class Graph(object):
         if name in self.neighbors:
             raise MultipleNodeException
         self.neighbors[name] = list()
-        if self.graph_type is DIRECTED_GRAPH:
+        if self.graph_type == DIRECTED_GRAPH:
             self.in_neighbors[name] = list()
         self.nodes[name] = Node(name, **attr)
         return self.nodes[name]
@@ -348,7 +348,7 @@ class Graph(object):
         '''
         if (name1, name2) in self.edge_attr:
             raise MultipleEdgeException
-        if self.graph_type is UNDIRECTED_GRAPH and (name2,name1) in self.edge_attr:
+        if self.graph_type == UNDIRECTED_GRAPH and (name2,name1) in self.edge_attr:
             raise MultipleEdgeException
         self.edge_attr[(name1,name2)] = copy.deepcopy(DEFAULT_EDGE_ATTRIBUTES)
         for a in attr:
@@ -358,7 +358,7 @@ class Graph(object):
         if name2 not in self.nodes:
             self.add_node(name2)
         self.neighbors[name1].append(name2)
-        if self.graph_type is UNDIRECTED_GRAPH:
+        if self.graph_type == UNDIRECTED_GRAPH:
             self.neighbors[name2].append(name1)
         else:
             self.in_neighbors[name2].append(name1)
@@ -375,7 +375,7 @@ class Graph(object):
         Post:
             self.edge_attr, self.neighbors and self.in_neighbors are updated.
         '''
-        if self.graph_type is DIRECTED_GRAPH:
+        if self.graph_type == DIRECTED_GRAPH:
             try:
                 del self.edge_attr[e]
             except KeyError:
@@ -431,7 +431,7 @@ class Graph(object):
         Return:
             Returns True if edge exists, False otherwise.
         '''
-        if self.graph_type is DIRECTED_GRAPH:
+        if self.graph_type == DIRECTED_GRAPH:
             return (name1, name2) in self.edge_attr
         else:
             return ((name1, name2) in self.edge_attr or
@@ -506,7 +506,7 @@ class Graph(object):
         Return:
             Value of edge attribute attr.
         '''
-        if self.graph_type is DIRECTED_GRAPH:
+        if self.graph_type == DIRECTED_GRAPH:
             return self.edge_attr[(n,m)][attr]
         else:
             try:
@@ -544,7 +544,7 @@ class Graph(object):
         Post:
             Edge attribute will be updated.
         '''
-        if self.graph_type is DIRECTED_GRAPH:
+        if self.graph_type == DIRECTED_GRAPH:
             self.edge_attr[(n,m)][attr] = value
         else:
             try:
@@ -1557,7 +1557,7 @@ class Graph(object):
         Return:
             Returns residual graph, which is a Graph instance.
         '''
-        if self.graph_type is UNDIRECTED_GRAPH:
+        if self.graph_type == UNDIRECTED_GRAPH:
             raise Exception('residual graph is defined for directed graphs.')
         residual_g = Graph(type = DIRECTED_GRAPH)
         for e in self.get_edge_list():
-- 
2.43.0


From d19679335ce8360f71a5854aea3f2c4a5b56391b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:35 +0000
Subject: [PATCH 37/51] fix: search() with DFS on a PriorityQueue raised for
 paths of two or more edges

The depth of a node was stored under 'depth', the next step reads 'distance'.
---
 src/gimpy/graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 1f0f9a2..472eae1 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1229,6 +1229,7 @@ class Graph(object):
                 neighbor_node.set_attr('distance', priority)
             if algo == 'DFS':
                 neighbor_node.set_attr('depth', -priority)
+                neighbor_node.set_attr('distance', -priority)
         else:
             distance = self.get_node(current).get_attr('distance') + 1
             if ((algo == 'UnweightedSPT' or algo == 'BFS') and
-- 
2.43.0


From e555ee202b533b7d10fa1fe434aa5c056a6ed1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:54 +0000
Subject: [PATCH 38/51] fix: the display argument of an algorithm changed the
 display mode of the graph

---
 src/gimpy/graph.py | 74 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 52 insertions(+), 22 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 472eae1..85fbb3a 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -822,10 +822,15 @@ class Graph(object):
         '''
         if pred == None:
             pred = {}
-        if display == None:
-            display = self.attr['display']
-        else:
+        if display is not None:
+            # show the steps in this mode and return to the one of the graph
+            old_display = self.attr['display']
             self.set_display_mode(display)
+            result = self.dfs(root, disc_count, finish_count,
+                              topological_order, component, transpose,
+                              pred = pred)
+            self.set_display_mode(old_display)
+            return result
         neighbors = self.neighbors
         if self.graph_type == DIRECTED_GRAPH and transpose:
             neighbors = self.in_neighbors
@@ -889,10 +894,14 @@ class Graph(object):
         '''
         if pred == None:
             pred = {}
-        if display == None:
-            display = self.attr['display']
-        else:
+        if display is not None:
+            # show the steps in this mode and return to the one of the graph
+            old_display = self.attr['display']
             self.set_display_mode(display)
+            result = self.hamiltonian(source, destination, distance,
+                                      pred = pred)
+            self.set_display_mode(old_display)
+            return result
 
         if (distance == 0):
             for i in self.get_node_list():
@@ -916,8 +925,7 @@ class Graph(object):
         for i in self.get_neighbors(source):
             if self.get_node(i).get_attr('visited') is None:
                 pred[i] = source
-                if (self.hamiltonian(i, destination, distance+1, display = display,
-                            pred = pred)):
+                if (self.hamiltonian(i, destination, distance+1, pred = pred)):
                     return True
         if source in pred: # this is the original source node
             self.get_node(source).set_attr('color', 'black')            
@@ -1009,10 +1017,14 @@ class Graph(object):
             If there is no path returns predecessor tree in dictionary form.
             See description section.
         '''
-        if display == None:
-            display = self.attr['display']
-        else:
+        if display is not None:
+            # show the steps in this mode and return to the one of the graph
+            old_display = self.attr['display']
             self.set_display_mode(display)
+            result = self.search(source, destination, None, component, q,
+                                 algo, reverse, **kargs)
+            self.set_display_mode(old_display)
+            return result
         if algo == 'DFS':
             if q is None:
                 q = Stack()
@@ -1263,10 +1275,13 @@ class Graph(object):
         Return:
             Returns predecessor tree in dictionary format.
         '''
-        if display == None:
-            display = self.attr['display']
-        else:
+        if display is not None:
+            # show the steps in this mode and return to the one of the graph
+            old_display = self.attr['display']
             self.set_display_mode(display)
+            result = self.minimum_spanning_tree_prim(source, q = q)
+            self.set_display_mode(old_display)
+            return result
         if q is None:
             q = PriorityQueue()
         if isinstance(q, PriorityQueue):
@@ -1318,10 +1333,15 @@ class Graph(object):
             Returns list of edges where edges are tuples in (source,sink)
             format.
         '''
-        if display == None:
-            display = self.attr['display']
-        else:
+        if display is not None:
+            # show the steps in this mode and return to the one of the graph
+            old_display = self.attr['display']
             self.set_display_mode(display)
+            result = self.minimum_spanning_tree_kruskal(
+                components = components)
+            self.set_display_mode(old_display)
+            return result
+        display = self.attr['display']
         if components is None:
             components = DisjointSet(display = display, layout = 'dot',
                                      optimize = False)
@@ -1364,10 +1384,14 @@ class Graph(object):
         Post:
             The 'flow' attribute of each arc gives a maximum flow.
         '''
-        if display == None:
-            display = self.attr['display']
-        else:
+        if display is not None:
+            # show the steps in this mode and return to the one of the graph
+            old_display = self.attr['display']
             self.set_display_mode(display)
+            result = self.max_flow_preflowpush(source, sink, algo)
+            self.set_display_mode(old_display)
+            return result
+        display = self.attr['display']
         nl = self.get_node_list()
         # set excess of all nodes to 0
         for n in nl:
@@ -3154,8 +3178,14 @@ After installation, ensure that the PATH variable is properly set.''')
                 solves minimum cost feasible flow problem using network simplex
                 agorithm with scaled pivot rule.
         '''
-        if display is None:
-            display = self.attr['display']
+        if display is not None:
+            # show the steps in this mode and return to the one of the graph
+            old_display = self.attr['display']
+            self.set_display_mode(display)
+            self.min_cost_flow(**args)
+            self.set_display_mode(old_display)
+            return
+        display = self.attr['display']
         if 'algo' in args:
             algorithm = args['algo']
         else:
-- 
2.43.0


From f49a91b3e70a60a4fd2a6791ca3297df5052d5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:34 +0000
Subject: [PATCH 39/51] fix: a missing or failing Graphviz left a temporary
 file behind

---
 src/gimpy/graph.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 85fbb3a..b9cc38f 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1761,12 +1761,11 @@ Graphviz must be installed and in your search path.
 Please visit http://www.graphviz.org/ for information on installation.
 After installation, ensure that the PATH variable is properly set.''')
             return None
+        finally:
+            os.remove(tmp_name)
 
-        
         p.check_returncode()
 
-        os.remove(tmp_name)
-            
         if p.stderr:
             print(p.stderr)
         return p.stdout
-- 
2.43.0


From 1d5c283d555a956cf67e506eecdeca2dd8a8c842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:56 +0000
Subject: [PATCH 40/51] fix: display() left a temporary file behind when no
 picture could be shown

---
 src/gimpy/graph.py | 58 ++++++++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index b9cc38f..6ae3b3b 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1846,41 +1846,43 @@ After installation, ensure that the PATH variable is properly set.''')
         elif self.attr['display'] == 'PIL':
             if PIL_INSTALLED:
                 tmp_fd, tmp_name = tempfile.mkstemp()
-                tmp_file = os.fdopen(tmp_fd, 'w+b')
-                self.write(tmp_file, self.get_layout(), format)
-                tmp_file.close()
-                im = PIL_Image.open(tmp_name)
-                im.show()
-                os.remove(tmp_name)
+                try:
+                    with os.fdopen(tmp_fd, 'w+b') as tmp_file:
+                        self.write(tmp_file, self.get_layout(), format)
+                    im = PIL_Image.open(tmp_name)
+                    im.show()
+                finally:
+                    os.remove(tmp_name)
             else:
                 print('Error: PIL not installed. Display disabled.')
                 self.attr['display'] = 'off'
         elif self.attr['display'] == 'matplotlib':
             if MATPLOTLIB_INSTALLED and PIL_INSTALLED:
                 tmp_fd, tmp_name = tempfile.mkstemp()
-                tmp_file = os.fdopen(tmp_fd, 'w+b')
-                self.write(tmp_file, self.get_layout(), format)
-                tmp_file.close()
-                im = PIL_Image.open(tmp_name)
-                fig = plt.figure(1)
-                fig.canvas.mpl_connect('close_event', handle_close)
-                plt.clf()
-                plt.axis('off')
-                plt.imshow(im, interpolation='bilinear' #resample=True
-                           #extent = (0, 100, 0, 100)
-                )
-                if wait_for_click == True:
-                    plt.draw()
-                    try:
-                        if plt.waitforbuttonpress(timeout = 10000):
-                            plt.close()
+                try:
+                    with os.fdopen(tmp_fd, 'w+b') as tmp_file:
+                        self.write(tmp_file, self.get_layout(), format)
+                    im = PIL_Image.open(tmp_name)
+                    fig = plt.figure(1)
+                    fig.canvas.mpl_connect('close_event', handle_close)
+                    plt.clf()
+                    plt.axis('off')
+                    plt.imshow(im, interpolation='bilinear' #resample=True
+                               #extent = (0, 100, 0, 100)
+                    )
+                    if wait_for_click == True:
+                        plt.draw()
+                        try:
+                            if plt.waitforbuttonpress(timeout = 10000):
+                                plt.close()
+                                exit()
+                        except:
                             exit()
-                    except:
-                        exit()
-                else:
-                    plt.show(block=pause)
-                im.close()
-                os.remove(tmp_name)
+                    else:
+                        plt.show(block=pause)
+                    im.close()
+                finally:
+                    os.remove(tmp_name)
             else:
                 print('Warning: Either matplotlib or Pillow is not installed. Display disabled.')
                 self.attr['display'] = 'off'
-- 
2.43.0


From e0b7c48dbb323ad6f644d8452355ca9814eab5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:33 +0000
Subject: [PATCH 41/51] fix: an interrupted traverse() left its nodes to the
 next traversal

---
 src/gimpy/tree.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/gimpy/tree.py b/src/gimpy/tree.py
index 8257bf1..fde6150 100755
--- a/src/gimpy/tree.py
+++ b/src/gimpy/tree.py
@@ -142,7 +142,7 @@ class Tree(Graph):
             display = self.attr['display']
         self.traverse(root, display, Queue())
 
-    def traverse(self, root = None, display = None, q = Stack()):
+    def traverse(self, root = None, display = None, q = None):
         '''
         API: traverse(self, root = None, display = None, q = Stack())
         Description:
@@ -162,6 +162,8 @@ class Tree(Graph):
             root = self.root.name
         if display == None:
             display = self.attr['display']
+        if q is None:
+            q = Stack()
         if isinstance(q, Queue):
             addToQ = q.enqueue
             removeFromQ = q.dequeue
@@ -386,7 +388,7 @@ class BinaryTree(Tree):
             root = self.root.name
         self.traverse(root, display, Queue(), priority)
 
-    def traverse(self, root = None, display = None, q = Stack(),
+    def traverse(self, root = None, display = None, q = None,
                  priority = 'L'):
         '''
         API: traverse(self, root=None, display=None, q=Stack(), priority='L',
@@ -412,6 +414,8 @@ class BinaryTree(Tree):
         else:
             old_display = self.attr['display']
             self.attr['display'] = display
+        if q is None:
+            q = Stack()
         if isinstance(q, Queue):
             addToQ = q.enqueue
             removeFromQ = q.dequeue
-- 
2.43.0


From 48b2ccc26b3866b07c824aadfc157c790ae064f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:41 +0000
Subject: [PATCH 42/51] fix: a reported negative cycle could have a cost of
 zero or more

With several negative cycles nextn of Floyd-Warshall leads around cycles
that are not negative, and cycle canceling could go on for ever.
---
 src/gimpy/graph.py | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 6ae3b3b..5c8093d 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2150,6 +2150,8 @@ After installation, ensure that the PATH variable is properly set.''')
                 else:
                     nextn[(i,j)] = i
         # == end of next initialization
+        # nodes with a negative cycle, nextn keeps the way around it for them
+        closed = set(i for i in nl if distance[(i,i)] < 0)
         # compute shortest distance
         for k in nl:
             for i in nl:
@@ -2161,7 +2163,9 @@ After installation, ensure that the PATH variable is properly set.''')
                         nextn[(i,j)] = nextn[(k,j)]
                     elif distance[(i,j)] > distance[(i,k)] + distance[(k,j)]:
                         distance[(i,j)] = distance[(i,k)] + distance[(k,j)]
-                        nextn[(i,j)] = nextn[(k,j)]
+                        if i not in closed:
+                            nextn[(i,j)] = nextn[(k,j)]
+            closed = set(i for i in nl if distance[(i,i)] < 0)
         # == end of compute shortest distance
         # check if graph has negative cycles
         for i in nl:
@@ -2208,26 +2212,29 @@ After installation, ensure that the PATH variable is properly set.''')
             (i,j), (j,k) and (r,i) are some edges in the cycle.
         '''
         nl = self.get_node_list()
+        # nodes with a cycle on the path from the node to itself
+        candidates = [i for i in nl if distance[(i,i)] < 0]
         if element is None:
-            for i in nl:
-                if distance[(i,i)] < 0:
-                    # graph has a cycle on the path from i to i.
-                    element = i
-                    break
-            else:
+            if not candidates:
                 raise Exception('Graph does not have a negative cycle!')
         elif distance[(element,element)] >= 0:
             raise Exception('Graph does not have a negative cycle that contains node '+str(element)+'!')
-        # find the cycle on the path from i to i.
-        cycle = [element]
-        k = nextn[(element,element)]
-        while k not in cycle:
-            cycle.insert(1,k)
-            k = nextn[(element,k)]
-        if k==element:
-            return cycle
         else:
-            return self.floyd_warshall_get_cycle(distance, nextn, k)
+            candidates.insert(0, element)
+        for element in candidates:
+            # find the cycle on the path from element to element.
+            cycle = [element]
+            k = nextn[(element,element)]
+            while k not in cycle:
+                cycle.insert(1,k)
+                k = nextn[(element,k)]
+            if k!=element:
+                cycle = cycle[1:cycle.index(k)+1]
+            # distance may be due to another negative cycle
+            if sum(self.get_edge_cost((cycle[i-1],cycle[i]))
+                   for i in range(len(cycle))) < 0:
+                break
+        return cycle
 
     def find_cycle_capacity(self, cycle):
         '''
-- 
2.43.0


From 9659e47baff0db4fe50ef36917dcf0e1ca6f7819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:55 +0000
Subject: [PATCH 43/51] fix: a cycle of the simplex solution could hold nodes
 that are not on it

---
 src/gimpy/graph.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 5c8093d..2e17a99 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -3013,6 +3013,12 @@ After installation, ensure that the PATH variable is properly set.''')
                         while temp is not None:
                             cycle2.append(temp)
                             temp = pred[temp]
+                        # the part of the two paths that is the same is not
+                        # on the cycle
+                        while (len(cycle1) > 1 and len(cycle2) > 1 and
+                               cycle1[-2] == cycle2[-2]):
+                            cycle1.pop()
+                            cycle2.pop()
                         cycle1.pop()
                         cycle1.reverse()
                         cycle2.extend(cycle1)
-- 
2.43.0


From 36e5af9eb44dc4eebcfd26efc7dcf7a21185b01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:53 +0000
Subject: [PATCH 44/51] fix: acyclic_shortest_path() raised TypeError on a Tree

---
 src/gimpy/graph.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 2e17a99..93cc71b 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -855,16 +855,16 @@ class Graph(object):
             if not transpose:
                 if self.get_node(i).get_attr('disc_time') is None:
                     pred[i] = root
-                    disc_count, finish_count = self.dfs(i, disc_count,
-                                                        finish_count, topological_order,
-                                                        component, transpose,
-                                                        pred = pred)
+                    disc_count, finish_count = Graph.dfs(self, i, disc_count,
+                                                         finish_count, topological_order,
+                                                         component, transpose,
+                                                         pred = pred)
             else:
                 if self.get_node(i).get_attr('component') is None:
-                    disc_count, finish_count = self.dfs(i, disc_count,
-                                                        finish_count, topological_order,
-                                                        component, transpose,
-                                                        pred = pred)
+                    disc_count, finish_count = Graph.dfs(self, i, disc_count,
+                                                         finish_count, topological_order,
+                                                         component, transpose,
+                                                         pred = pred)
         self.get_node(root).set_attr('finish_time', finish_count)
         if topological_order != None:
             topological_order.insert(0, root)
@@ -958,7 +958,8 @@ class Graph(object):
         found = False
         for n in G.get_node_list():
             G.set_node_attr(n, 'disc_time', None)
-        G.dfs(source, topological_order = order)
+        # the dfs() of a tree is another one
+        Graph.dfs(G, source, topological_order = order)
         for m in order:
             if m == destination:
                 found = True
-- 
2.43.0


From e3b7b3daffb1c2d071d7faae8b8bd9df1e8c2a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:41 +0000
Subject: [PATCH 45/51] fix: nodes of a Tree kept a deleted node as their
 parent

---
 src/gimpy/tree.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/gimpy/tree.py b/src/gimpy/tree.py
index fde6150..220a978 100755
--- a/src/gimpy/tree.py
+++ b/src/gimpy/tree.py
@@ -104,6 +104,25 @@ class Tree(Graph):
         self.add_edge(parent, n)
         return self.get_node(n)
 
+    def del_node(self, n):
+        '''
+        API: del_node(self, n)
+        Description:
+            Removes node n from tree.
+        Pre:
+            Node n should be present in the tree.
+        Input:
+            n: Node name.
+        '''
+        children = list(self.neighbors.get(n, ()))
+        Graph.del_node(self, n)
+        # the children, if any, stay in the tree without a parent
+        for child in children:
+            if self.get_parent(child) == n:
+                self.set_node_attr(child, 'parent', None)
+        if self.root is not None and self.root.name == n:
+            self.root = None
+
     def dfs(self, root = None, display = None):
         '''
         API: dfs(self, root = None, display = None)
-- 
2.43.0


From e95191141a1fd37ef5e231a9141a25680544a485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:34 +0000
Subject: [PATCH 46/51] fix: search() erased the component of its source and
 ignored component for Dijkstra and Prim

---
 src/gimpy/graph.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 93cc71b..75a6462 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1029,11 +1029,13 @@ class Graph(object):
         if algo == 'DFS':
             if q is None:
                 q = Stack()
-            self.get_node(source).set_attr('component', component)
+            if component is not None:
+                self.get_node(source).set_attr('component', component)
         elif algo == 'BFS' or algo == 'UnweightedSPT':
             if q is None:
                 q = Queue()
-            self.get_node(source).set_attr('component', component)
+            if component is not None:
+                self.get_node(source).set_attr('component', component)
         elif algo in ['Dijkstra', 'Prim']:
             if q is None:
                 q = PriorityQueue()
@@ -1141,6 +1143,8 @@ class Graph(object):
             self.get_node(neighbor).set_attr('color', 'red')
             self.get_node(neighbor).set_attr('label', 0)
             q.push(neighbor, 0)
+            if component is not None:
+                self.get_node(neighbor).set_attr('component', component)
             self.display()
             self.get_node(neighbor).set_attr('color', 'black')
             return
@@ -1152,6 +1156,8 @@ class Graph(object):
             self.get_node(neighbor).set_attr('color', 'red')
             self.get_node(neighbor).set_attr('label', new_estimate)
             q.push(neighbor, new_estimate)
+            if component is not None:
+                self.get_node(neighbor).set_attr('component', component)
             self.display()
             self.get_node(neighbor).set_attr('color', 'black')
 
@@ -1176,6 +1182,8 @@ class Graph(object):
             self.get_node(neighbor).set_attr('color', 'red')
             self.get_node(neighbor).set_attr('label', 0)
             q.push(neighbor, 0)
+            if component is not None:
+                self.get_node(neighbor).set_attr('component', component)
             self.display()
             self.get_node(neighbor).set_attr('color', 'black')
             return
@@ -1186,6 +1194,8 @@ class Graph(object):
             self.get_node(neighbor).set_attr('color', 'red')
             self.get_node(neighbor).set_attr('label', new_estimate)
             q.push(neighbor, new_estimate)
+            if component is not None:
+                self.get_node(neighbor).set_attr('component', component)
             self.display()
             self.get_node(neighbor).set_attr('color', 'black')
 
-- 
2.43.0


From 1cbbad30c04bc45aa7b8b293622a3338557123f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:20 +0000
Subject: [PATCH 47/51] fix: postordereval truncated or rejected operands that
 are not whole numbers

---
 src/gimpy/tree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/gimpy/tree.py b/src/gimpy/tree.py
index 220a978..f015015 100755
--- a/src/gimpy/tree.py
+++ b/src/gimpy/tree.py
@@ -530,7 +530,12 @@ class BinaryTree(Tree):
             sys.stdout.flush()
             return result
         else:
-            return int(root_label) 
+            if isinstance(root_label, str):
+                try:
+                    return int(root_label)
+                except ValueError:
+                    return float(root_label)
+            return root_label
 
 if __name__ == '__main__':
 
-- 
2.43.0


From 8d63c30980434024957478e6861db2d11fcca273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:20 +0000
Subject: [PATCH 48/51] fix: labels of the network simplex showed flows,
 capacities and costs without their fractions

---
 src/gimpy/graph.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 75a6462..4629526 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2659,7 +2659,7 @@ After installation, ensure that the PATH variable is properly set.''')
             new.edge_attr[e]['flow'] = flow
             new.edge_attr[e]['capacity'] = capacity
             new.edge_attr[e]['cost'] = cost
-            new.edge_attr[e]['label'] =  "%d/%d/%d" %(flow,capacity,cost)
+            new.edge_attr[e]['label'] =  "%s/%s/%s" %(flow,capacity,cost)
         return new
 
     def simplex_remove_arc(self, t, p, q, min_capacity, cycle):
@@ -2709,7 +2709,7 @@ After installation, ensure that the PATH variable is properly set.''')
         capacity_pq = self.get_edge_attr(p, q, 'capacity')
         cost_pq = self.get_edge_attr(p, q, 'cost')
         self.set_edge_attr(p, q, 'label',
-                           "%d/%d/%d" %(flow_pq,capacity_pq,cost_pq))
+                           "%s/%s/%s" %(flow_pq,capacity_pq,cost_pq))
         for e in t.edge_attr:
             flow = self.edge_attr[e]['flow']
             capacity = self.edge_attr[e]['capacity']
@@ -2717,8 +2717,8 @@ After installation, ensure that the PATH variable is properly set.''')
             t.edge_attr[e]['flow'] = flow
             t.edge_attr[e]['capacity'] = capacity
             t.edge_attr[e]['cost'] = cost
-            t.edge_attr[e]['label'] = "%d/%d/%d" %(flow,capacity,cost)
-            self.edge_attr[e]['label'] = "%d/%d/%d" %(flow,capacity,cost)
+            t.edge_attr[e]['label'] = "%s/%s/%s" %(flow,capacity,cost)
+            self.edge_attr[e]['label'] = "%s/%s/%s" %(flow,capacity,cost)
 
     def simplex_select_entering_arc(self, t, pivot):
         '''
@@ -2851,12 +2851,12 @@ After installation, ensure that the PATH variable is properly set.''')
             flow = self.edge_attr[e]['flow']
             capacity = self.edge_attr[e]['capacity']
             cost = self.edge_attr[e]['cost']
-            self.edge_attr[e]['label'] = "%d/%d/%d" %(flow,capacity,cost)
+            self.edge_attr[e]['label'] = "%s/%s/%s" %(flow,capacity,cost)
             if e in solution_g.edge_attr:
                 solution_g.edge_attr[e]['flow'] = flow
                 solution_g.edge_attr[e]['capacity'] = capacity
                 solution_g.edge_attr[e]['cost'] = cost
-                solution_g.edge_attr[e]['label'] = "%d/%d/%d" %(flow,capacity,cost)
+                solution_g.edge_attr[e]['label'] = "%s/%s/%s" %(flow,capacity,cost)
         return solution_g
 
     def simplex_connect(self, solution_g):
-- 
2.43.0


From 5d46a846251f3ab3fb63f72f907dd1e9283491e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:20 +0000
Subject: [PATCH 49/51] fix: minimum_spanning_tree_kruskal() left edges of an
 earlier tree green

---
 src/gimpy/graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 4629526..6a8c11e 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1358,6 +1358,9 @@ class Graph(object):
                                      optimize = False)
         sorted_edge_list = sorted(self.get_edge_list(), key=self.get_edge_cost)
         edges = []
+        # the colors of an earlier run do not belong to this one
+        for e in sorted_edge_list:
+            self.set_edge_attr(e[0], e[1], 'color', 'black')
         for n in self.get_node_list():
             components.add([n])
         components.display()
-- 
2.43.0


From aaea95e51e292f42817aa397480f3b10e70fd1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:20 +0000
Subject: [PATCH 50/51] fix: label_components() left only the nodes of the last
 component labelled

---
 src/gimpy/graph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 6a8c11e..452425c 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1047,6 +1047,10 @@ class Graph(object):
             neighbors = self.in_neighbors
         for i in self.get_node_list():
             self.get_node(i).set_attr('label', '-')
+            # with component numbers the nodes show those they have
+            number = self.get_node(i).get_attr('component')
+            if component is not None and number is not None:
+                self.get_node(i).set_attr('label', number)
             self.get_node(i).attr.pop('priority', None)
             self.get_node(i).set_attr('distance', None)
             self.get_node(i).set_attr('color', 'black')
-- 
2.43.0


From 88aeb17588b80d635e20cd7571371a1fe9f558f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:20 +0000
Subject: [PATCH 51/51] fix: hamiltonian() did not mark the last node and edge
 of the path it found

---
 src/gimpy/graph.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 452425c..b15b2f5 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -909,19 +909,18 @@ class Graph(object):
                 self.get_node(i).set_attr('visited', None)
             self.display()
 
-        if destination != None:
-            if source == destination and distance == self.get_node_num() - 1:
-                return True
-        else:
-            if distance == self.get_node_num() - 1:
-                return True
-
         self.get_node(source).set_attr('visited', True)
         self.get_node(source).set_attr('label', str(distance))
         self.get_node(source).set_attr('color', 'blue')
         if source in pred:
             self.set_edge_attr(pred[source], source, 'color', 'green')
         self.display()
+        if destination != None:
+            if source == destination and distance == self.get_node_num() - 1:
+                return True
+        else:
+            if distance == self.get_node_num() - 1:
+                return True
         for i in self.get_neighbors(source):
             if self.get_node(i).get_attr('visited') is None:
                 pred[i] = source
-- 
2.43.0

