From 9f2ffb74ec46cd7af2afcbe28496ad62c2039c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:39 +0000
Subject: [PATCH 01/60] fix: Frame copies the caller's attribute dict instead
 of modifying it

---
 hatchet/frame.py                   |  4 ++--
 hatchet/readers/timemory_reader.py | 27 ++++++++++++++-------------
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/hatchet/frame.py b/hatchet/frame.py
index b090a96..2d4e77c 100644
--- a/hatchet/frame.py
+++ b/hatchet/frame.py
@@ -32,8 +32,8 @@ class Frame:
             Frame({"name": "foo", "file": "baz.h"}, file="bar.c")
 
         """
-        # attributes dictionary
-        self.attrs = attrs if attrs else {}
+        # attributes dictionary (a copy, the caller's dict is never modified)
+        self.attrs = dict(attrs) if attrs else {}
 
         # add keyword arguments, if any.
         if kwargs:
diff --git a/hatchet/readers/timemory_reader.py b/hatchet/readers/timemory_reader.py
index ba69ced..cc4de2b 100644
--- a/hatchet/readers/timemory_reader.py
+++ b/hatchet/readers/timemory_reader.py
@@ -276,19 +276,6 @@ class TimemoryReader:
 
             callpath = _parent_callpath + (_frame_attrs["name"],)
 
-            # check if the node already exits.
-            _hnode = self.callpath_to_node.get(callpath)
-            if _hnode is None:
-                # connect with the parent during node creation.
-                _hnode = Node(Frame(_frame_attrs), _hparent)
-                self.callpath_to_node[callpath] = _hnode
-                if _hparent is None:
-                    # if parent is none, this is a root node.
-                    list_roots.append(_hnode)
-                else:
-                    # if parent is not none, add as a child.
-                    _hparent.add_child(_hnode)
-
             # by placing the thread-id or rank-id in _frame_attrs, the hash
             # for the Frame(_keys) effectively circumvent Hatchet's
             # default behavior of combining similar thread/rank entries
@@ -305,6 +292,20 @@ class TimemoryReader:
             _tid_dict["thread"] = collapse_ids(
                 _node_data["node"]["tid"], self.per_thread
             )
+
+            # check if the node already exits.
+            _hnode = self.callpath_to_node.get(callpath)
+            if _hnode is None:
+                # connect with the parent during node creation.
+                _hnode = Node(Frame(_frame_attrs), _hparent)
+                self.callpath_to_node[callpath] = _hnode
+                if _hparent is None:
+                    # if parent is none, this is a root node.
+                    list_roots.append(_hnode)
+                else:
+                    # if parent is not none, add as a child.
+                    _hparent.add_child(_hnode)
+
             _extra["pid"] = collapse_ids(_node_data["node"]["pid"], False)
             _extra["count"] = _node_data["node"]["inclusive"]["entry"]["laps"]
 
-- 
2.43.0


From 366a9d4ffaee8446f46fdccbe4c1c7560ae71262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:34 +0000
Subject: [PATCH 02/60] fix: arithmetic on graphframes sharing a graph no
 longer overwrites the operands' values

---
 hatchet/graphframe.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 822720a..0b32f22 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1245,7 +1245,11 @@ class GraphFrame:
             )
         )
 
-        self.dataframe.update(op(other.dataframe[all_metrics]))
+        # update a deep copy, the values may be shared with another graphframe
+        # (e.g., with the one self was copied from)
+        dataframe = self.dataframe.copy()
+        dataframe.update(op(other.dataframe[all_metrics]))
+        self.dataframe = dataframe
 
         return self
 
-- 
2.43.0


From 2d18133d5953efdd358158c9895ee24e5fcfb24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:02 +0000
Subject: [PATCH 03/60] fix: squash works on a copy of the dataframe, an error
 no longer leaves it without its index

---
 hatchet/graphframe.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 0b32f22..1e137a6 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -553,10 +553,10 @@ class GraphFrame:
             update_inc_cols (boolean, optional): if True, update inclusive columns.
         """
         index_names = self.dataframe.index.names
-        self.dataframe.reset_index(inplace=True)
+        df = self.dataframe.reset_index()
 
         # create new nodes for each unique node in the old dataframe
-        old_to_new = {n: n.copy() for n in set(self.dataframe["node"])}
+        old_to_new = {n: n.copy() for n in set(df["node"])}
         for i in old_to_new:
             old_to_new[i]._hatchet_nid = i._hatchet_nid
 
@@ -609,7 +609,6 @@ class GraphFrame:
         graph.enumerate_traverse()
 
         # reindex new dataframe with new nodes
-        df = self.dataframe.copy()
         df["node"] = df["node"].apply(lambda x: old_to_new[x])
 
         # at this point, the graph is potentially invalid, as some nodes
@@ -617,7 +616,6 @@ class GraphFrame:
         merges = graph.normalize()
         df["node"] = df["node"].apply(lambda n: merges.get(n, n))
 
-        self.dataframe.set_index(index_names, inplace=True)
         df.set_index(index_names, inplace=True)
         # create dict that stores aggregation function for each column
         agg_dict = {}
-- 
2.43.0


From 282045e65c1476077e23fc35fce9c2732f8cb5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:26 +0000
Subject: [PATCH 04/60] fix: filter, squash and groupby_aggregate results no
 longer share metric lists and metadata with their source

---
 hatchet/graphframe.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 1e137a6..6c2e1b6 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -60,7 +60,7 @@ class GraphFrame:
         exc_metrics=None,
         inc_metrics=None,
         default_metric="time",
-        metadata={},
+        metadata=None,
     ):
         """Create a new GraphFrame from a graph and a dataframe.
 
@@ -91,7 +91,7 @@ class GraphFrame:
         self.exc_metrics = [] if exc_metrics is None else exc_metrics
         self.inc_metrics = [] if inc_metrics is None else inc_metrics
         self.default_metric = default_metric
-        self.metadata = metadata
+        self.metadata = {} if metadata is None else metadata
         self.query_engine = QueryEngine()
 
     @staticmethod
@@ -534,10 +534,10 @@ class GraphFrame:
         filtered_df.set_index(index_names, inplace=True)
 
         filtered_gf = GraphFrame(self.graph, filtered_df)
-        filtered_gf.exc_metrics = self.exc_metrics
-        filtered_gf.inc_metrics = self.inc_metrics
+        filtered_gf.exc_metrics = copy.copy(self.exc_metrics)
+        filtered_gf.inc_metrics = copy.copy(self.inc_metrics)
         filtered_gf.default_metric = self.default_metric
-        filtered_gf.metadata = self.metadata
+        filtered_gf.metadata = copy.copy(self.metadata)
 
         if squash:
             return filtered_gf.squash(update_inc_cols)
@@ -637,10 +637,10 @@ class GraphFrame:
         new_gf = GraphFrame(
             graph,
             agg_df,
-            self.exc_metrics,
-            self.inc_metrics,
+            copy.copy(self.exc_metrics),
+            copy.copy(self.inc_metrics),
             self.default_metric,
-            self.metadata,
+            copy.copy(self.metadata),
         )
         if update_inc_cols:
             new_gf.update_inclusive_columns()
@@ -1469,10 +1469,10 @@ class GraphFrame:
         new_gf = GraphFrame(
             graph,
             tmp_df,
-            self.exc_metrics,
-            self.inc_metrics,
+            copy.copy(self.exc_metrics),
+            copy.copy(self.inc_metrics),
             self.default_metric,
-            self.metadata,
+            copy.copy(self.metadata),
         )
         new_gf.drop_index_levels()
         return new_gf
-- 
2.43.0


From 3e1152f39717875b92190cd7902a16f8e0155902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:12 +0000
Subject: [PATCH 05/60] fix: to_dict and to_literal no longer hand out the
 graphframe's own attribute dicts and metric lists

---
 hatchet/graphframe.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 6c2e1b6..4b00ad6 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1173,7 +1173,7 @@ class GraphFrame:
                 node_name = node_name[0]
 
             node_dict["name"] = node_name
-            node_dict["frame"] = hnode.frame.attrs
+            node_dict["frame"] = dict(hnode.frame.attrs)
             node_dict["metrics"] = metrics_to_dict(df_index)
             # node_dict["metrics"]["_hatchet_nid"] = int(self.dataframe["nid"][df_index])
             node_dict["metrics"]["_hatchet_nid"] = int(hnode._hatchet_nid)
@@ -1204,7 +1204,7 @@ class GraphFrame:
             formatted_graph_dict = {}
             for n in root.traverse():
                 formatted_graph_dict[n._hatchet_nid] = {
-                    "data": n.frame.attrs,
+                    "data": dict(n.frame.attrs),
                     "children": [c._hatchet_nid for c in n.children],
                 }
             graphs.append(formatted_graph_dict)
@@ -1216,8 +1216,8 @@ class GraphFrame:
         ef["node"] = ef["node"].apply(lambda n: n._hatchet_nid)
         hatchet_dict["dataframe"] = ef.replace({np.nan: None}).to_dict("records")
 
-        hatchet_dict["inclusive_metrics"] = self.inc_metrics
-        hatchet_dict["exclusive_metrics"] = self.exc_metrics
+        hatchet_dict["inclusive_metrics"] = list(self.inc_metrics)
+        hatchet_dict["exclusive_metrics"] = list(self.exc_metrics)
 
         return hatchet_dict
 
-- 
2.43.0


From b21f01c6b7ccf28b08353fb7f1bcebd8023fa123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:30 +0000
Subject: [PATCH 06/60] fix: the gprof reader no longer records a callee's
 first caller twice as its parent

---
 hatchet/readers/gprof_dot_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/readers/gprof_dot_reader.py b/hatchet/readers/gprof_dot_reader.py
index 49b878f..3bc9ba5 100644
--- a/hatchet/readers/gprof_dot_reader.py
+++ b/hatchet/readers/gprof_dot_reader.py
@@ -48,7 +48,7 @@ class GprofDotReader:
                 if not dst_hnode:
                     # create a node if it doesn't exist yet
                     dst_hnode = Node(
-                        Frame({"type": "function", "name": dst_name}), src_hnode
+                        Frame({"type": "function", "name": dst_name}), None
                     )
                     self.name_to_hnode[dst_name] = dst_hnode
                 # add source node as parent
-- 
2.43.0


From a891cb619102097ac6505ba41b5015b1c12966ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:58 +0000
Subject: [PATCH 07/60] fix: nodes read from Caliper JSON know their parents

---
 hatchet/readers/caliper_reader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index 3156e31..b738258 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -176,6 +176,7 @@ class CaliperReader:
                     parent_hnode = (self.idx_to_node[node["parent"]])["node"]
                     hnode = Node(
                         Frame({"type": self.node_type, "name": node_label}),
+                        parent_hnode,
                         hnid=order,
                     )
                     parent_hnode.add_child(hnode)
-- 
2.43.0


From 9e04e05e2bd52ace2859bbba35a79bf2f92a52ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:22 +0000
Subject: [PATCH 08/60] fix: the literal reader finds a shared node by its nid
 and records each of its parents

---
 hatchet/readers/literal_reader.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/hatchet/readers/literal_reader.py b/hatchet/readers/literal_reader.py
index c3c95a0..7ae55a4 100644
--- a/hatchet/readers/literal_reader.py
+++ b/hatchet/readers/literal_reader.py
@@ -67,7 +67,7 @@ class LiteralReader:
         self.graph_dict = graph_dict
 
     def parse_node_literal(
-        self, frame_to_node_dict, node_dicts, child_dict, hparent, seen_nids
+        self, nid_to_node_dict, node_dicts, child_dict, hparent, seen_nids
     ):
         """Create node_dict for one node and then call the function
         recursively on all children.
@@ -94,32 +94,33 @@ class LiteralReader:
             )
 
             node_dicts.append(node_dict)
-            frame_to_node_dict[frame] = hnode
 
             if hnid != -1:
                 seen_nids.append(hnid)
+                nid_to_node_dict[hnid] = hnode
 
         else:
-            hnode = frame_to_node_dict.get(frame)
+            hnode = nid_to_node_dict[hnid]
+            hnode.add_parent(hparent)
 
         hparent.add_child(hnode)
 
         if "children" in child_dict:
             for child in child_dict["children"]:
                 self.parse_node_literal(
-                    frame_to_node_dict, node_dicts, child, hnode, seen_nids
+                    nid_to_node_dict, node_dicts, child, hnode, seen_nids
                 )
 
     def read(self):
         list_roots = []
         node_dicts = []
-        frame_to_node_dict = {}
+        nid_to_node_dict = {}
         frame = None
         seen_nids = []
-        hnid = -1
 
         # start with creating a node_dict for each root
         for i in range(len(self.graph_dict)):
+            hnid = -1
             if "_hatchet_nid" in self.graph_dict[i]["metrics"]:
                 hnid = self.graph_dict[i]["metrics"]["_hatchet_nid"]
                 seen_nids.append(hnid)
@@ -137,13 +138,14 @@ class LiteralReader:
             node_dicts.append(node_dict)
 
             list_roots.append(graph_root)
-            frame_to_node_dict[frame] = graph_root
+            if hnid != -1:
+                nid_to_node_dict[hnid] = graph_root
 
             # call recursively on all children of root
             if "children" in self.graph_dict[i]:
                 for child in self.graph_dict[i]["children"]:
                     self.parse_node_literal(
-                        frame_to_node_dict, node_dicts, child, graph_root, seen_nids
+                        nid_to_node_dict, node_dicts, child, graph_root, seen_nids
                     )
 
         graph = Graph(list_roots)
-- 
2.43.0


From 232805c50996077a609b3a56bbb65963f834d582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:47 +0000
Subject: [PATCH 09/60] fix: the literal reader no longer turns _hatchet_nid
 into a metric

---
 hatchet/readers/literal_reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hatchet/readers/literal_reader.py b/hatchet/readers/literal_reader.py
index 7ae55a4..6409c29 100644
--- a/hatchet/readers/literal_reader.py
+++ b/hatchet/readers/literal_reader.py
@@ -159,12 +159,15 @@ class LiteralReader:
         exc_metrics = []
         inc_metrics = []
         for key in self.graph_dict[i]["metrics"].keys():
+            if key == "_hatchet_nid":
+                continue
             if "(inc)" in key:
                 inc_metrics.append(key)
             else:
                 exc_metrics.append(key)
 
         dataframe = pd.DataFrame(data=node_dicts)
+        dataframe.drop(columns="_hatchet_nid", errors="ignore", inplace=True)
         dataframe.set_index(["node"], inplace=True)
         dataframe.sort_index(inplace=True)
 
-- 
2.43.0


From ac4f5079e6f1f432e239af68d6b15477985109a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:38 +0000
Subject: [PATCH 10/60] fix: from_timemory returns the graphframe read from the
 running timemory and reports unreadable input

---
 hatchet/graphframe.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 4b00ad6..d70c175 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -293,15 +293,12 @@ class GraphFrame:
         from .readers.timemory_reader import TimemoryReader
 
         if input is not None:
-            try:
-                return TimemoryReader(input, select, **_kwargs).read()
-            except IOError:
-                pass
+            return TimemoryReader(input, select, **_kwargs).read()
         else:
             try:
                 import timemory
 
-                TimemoryReader(timemory.get(hierarchy=True), select, **_kwargs).read()
+                return TimemoryReader(timemory.get(hierarchy=True), select, **_kwargs).read()
             except ImportError:
                 print(
                     "Error! timemory could not be imported. Provide filename, file stream, or dict."
-- 
2.43.0


From 6734995dd579ef5646ba7abe5e8ac8906ca0cbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:01 +0000
Subject: [PATCH 11/60] fix: subgraph_sum does not count a shared node's
 already accumulated sum again

---
 hatchet/graphframe.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index d70c175..6d8f62c 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -743,6 +743,9 @@ class GraphFrame:
             return
 
         out_columns = self._init_sum_columns(columns, out_columns)
+        # sum the original values: out_columns may be the same as columns, and
+        # a node can be reached again after its own sum has been stored
+        values = self.dataframe[columns].copy()
         for node in self.graph.traverse():
             subgraph_nodes = list(node.traverse())
             # TODO: need a better way of aggregating inclusive metrics when
@@ -769,15 +772,15 @@ class GraphFrame:
                         df_index1 = (node, rank_thread)
                         df_index2 = (subgraph_nodes, rank_thread)
 
-                    for col in out_columns:
-                        self.dataframe.loc[df_index1, col] = [
-                            function(self.dataframe.loc[df_index2, col])
+                    for col, out in zip(columns, out_columns):
+                        self.dataframe.loc[df_index1, out] = [
+                            function(values.loc[df_index2, col])
                         ]
             else:
                 # TODO: if you take the list constructor away from the
                 # TODO: assignment below, this assignment gives NaNs. Why?
                 self.dataframe.loc[(node), out_columns] = list(
-                    function(self.dataframe.loc[(subgraph_nodes), columns])
+                    function(values.loc[(subgraph_nodes), columns])
                 )
 
     def generate_exclusive_columns(self, inc_metrics=None):
-- 
2.43.0


From 8708784acbfcdff2f54ab97f3649c4027282bf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:25 +0000
Subject: [PATCH 12/60] fix: subtree_sum/subgraph_sum check their arguments
 before changing the dataframe

---
 hatchet/graphframe.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 6d8f62c..defd70d 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -647,14 +647,15 @@ class GraphFrame:
         """Helper function for subtree_sum and subgraph_sum."""
         if out_columns is None:
             out_columns = columns
-        else:
-            # init out columns with input columns in case they are not there.
-            for col, out in zip(columns, out_columns):
-                self.dataframe[out] = self.dataframe[col]
 
         if len(columns) != len(out_columns):
             raise ValueError("columns out_columns must be the same length!")
 
+        if out_columns is not columns:
+            # init out columns with input columns in case they are not there.
+            for col, out in zip(columns, out_columns):
+                self.dataframe[out] = self.dataframe[col]
+
         return out_columns
 
     def subtree_sum(
-- 
2.43.0


From d9ca9a8cf8e0fda09401039eef17458db3464739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:48 +0000
Subject: [PATCH 13/60] fix: the order of metric lists no longer depends on
 string hashing

---
 hatchet/graphframe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index defd70d..dbe0757 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -874,7 +874,7 @@ class GraphFrame:
                 )
         # Add the newly created metrics to self.exc_metrics
         self.exc_metrics.extend([metric_tuple[0] for metric_tuple in generation_pairs])
-        self.exc_metrics = list(set(self.exc_metrics))
+        self.exc_metrics = list(dict.fromkeys(self.exc_metrics))
 
     def update_inclusive_columns(self):
         """Update inclusive columns (typically after operations that rewire the
@@ -907,7 +907,7 @@ class GraphFrame:
         self.inc_metrics = new_inc_metrics
 
         self.subgraph_sum(self.exc_metrics, self.inc_metrics)
-        self.inc_metrics = list(set(self.inc_metrics + old_inc_metrics))
+        self.inc_metrics = list(dict.fromkeys(self.inc_metrics + old_inc_metrics))
 
     def show_metric_columns(self):
         """Returns a list of dataframe column labels."""
-- 
2.43.0


From 6bacd98c670231cb03c6779d8c82942be93a0789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:25 +0000
Subject: [PATCH 14/60] fix: filter with several processes reports a failing
 predicate and keeps the order of the rows

---
 hatchet/graphframe.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index dbe0757..64bc0aa 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -43,9 +43,13 @@ except ImportError:
 def parallel_apply(filter_function, dataframe, queue):
     """A function called in parallel, which does a pandas apply on part of a
     dataframe and returns the results via multiprocessing queue function."""
-    filtered_rows = dataframe.apply(filter_function, axis=1)
-    filtered_df = dataframe[filtered_rows]
-    queue.put(filtered_df)
+    try:
+        filtered_rows = dataframe.apply(filter_function, axis=1)
+        filtered_df = dataframe[filtered_rows]
+        queue.put(filtered_df)
+    except Exception as e:
+        # the parent process waits for one result per worker
+        queue.put(e)
 
 
 class GraphFrame:
@@ -493,7 +497,12 @@ class GraphFrame:
                 for proc in processes:
                     proc.join()
 
-                filtered_df = pd.concat(returned_frames)
+                for frame in returned_frames:
+                    if isinstance(frame, Exception):
+                        raise frame
+
+                # the workers finish in any order, restore the order of the rows
+                filtered_df = pd.concat(returned_frames).sort_index()
 
             else:
                 # perform filter sequentiually if num_procs = 1
-- 
2.43.0


From ad7e1bb86503ed9f7660502f10872b852d8e2b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:00 +0000
Subject: [PATCH 15/60] fix: to_flamegraph labels the stacks with the requested
 name column

---
 hatchet/graphframe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 64bc0aa..0cbfaa4 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1082,7 +1082,7 @@ class GraphFrame:
                     else:
                         df_index = callpath[i]
                     folded_stack = (
-                        folded_stack + str(self.dataframe.loc[df_index, "name"]) + "; "
+                        folded_stack + str(self.dataframe.loc[df_index, name]) + "; "
                     )
 
                 if (
@@ -1097,7 +1097,7 @@ class GraphFrame:
                 else:
                     df_index = callpath[-1]
                 folded_stack = (
-                    folded_stack + str(self.dataframe.loc[df_index, "name"]) + " "
+                    folded_stack + str(self.dataframe.loc[df_index, name]) + " "
                 )
 
                 # set dataframe index based on if rank and thread are part of the index
-- 
2.43.0


From 8b8b8c0cf229445007f6bff8f210060a3ad35b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:22 +0000
Subject: [PATCH 16/60] fix: to_flamegraph honours its threshold

---
 hatchet/graphframe.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 0cbfaa4..b60fd1f 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1065,9 +1065,27 @@ class GraphFrame:
         folded_stack = ""
         if metric is None:
             metric = self.default_metric
+        max_value = self.dataframe[metric].max()
 
         for root in self.graph.roots:
             for hnode in root.traverse():
+                # set dataframe index based on if rank and thread are part of the index
+                if (
+                    "rank" in self.dataframe.index.names
+                    and "thread" in self.dataframe.index.names
+                ):
+                    df_index = (hnode, rank, thread)
+                elif "rank" in self.dataframe.index.names:
+                    df_index = (hnode, rank)
+                elif "thread" in self.dataframe.index.names:
+                    df_index = (hnode, thread)
+                else:
+                    df_index = hnode
+
+                # only write nodes whose metric reaches the threshold (see to_dot)
+                if self.dataframe.loc[df_index, metric] < threshold * max_value:
+                    continue
+
                 callpath = hnode.path()
                 for i in range(0, len(callpath) - 1):
                     if (
-- 
2.43.0


From e4b3a134a449618e66b8d1688179218e8d40e30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:46 +0000
Subject: [PATCH 17/60] fix: /= divides in place in Python 3 like the other
 augmented operators

---
 hatchet/graphframe.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index b60fd1f..5d2d275 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1681,6 +1681,11 @@ class GraphFrame:
         """
         return self.div(other)
 
+    def __itruediv__(self, other):
+        """Computes column-wise float division of two graphframes and stores the
+        result in self (see ``__idiv__``)."""
+        return self.__idiv__(other)
+
     def __imul__(self, other):
         """Computes column-wise float multiplication of two graphframes and stores the
         result in self.
-- 
2.43.0


From 41bf7138d82b69dbb462ca0f0eebb48fe1efd9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:15 +0000
Subject: [PATCH 18/60] fix: traversal order and merge targets no longer depend
 on object addresses

---
 hatchet/graph.py | 4 ++--
 hatchet/node.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index 55194bd..1f7dae2 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -99,11 +99,11 @@ class Graph:
             index = index_by("frame", node_list)
             for frame, children in index.items():
                 if len(children) > 1:
-                    min_id = min(children, key=id)
+                    min_id = min(children, key=node_traversal_order)
                     for child in children:
                         prev_min = merges.get(child, min_id)
                         # Get the new merged_node
-                        curr_min = min([min_id, prev_min], key=id)
+                        curr_min = min([min_id, prev_min], key=node_traversal_order)
                         # Save the new merged_node to the merges dict
                         # so that the merge can happen later.
                         merges[child] = curr_min
diff --git a/hatchet/node.py b/hatchet/node.py
index 672627a..eca5864 100644
--- a/hatchet/node.py
+++ b/hatchet/node.py
@@ -10,7 +10,7 @@ from .frame import Frame
 
 def traversal_order(node):
     """Deterministic key function for sorting nodes in traversals."""
-    return (node.frame, id(node))
+    return node.frame
 
 
 def node_traversal_order(node):
-- 
2.43.0


From 8379372ca1ea5f607a496b226132b91af2fd81bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:33 +0000
Subject: [PATCH 19/60] fix: copies of a graph with node ordering keep that
 order

---
 hatchet/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index 1f7dae2..bae994b 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -178,6 +178,8 @@ class Graph:
         # first pass creates new nodes
         for node in self.traverse():
             old_to_new[node] = node.copy()
+            # keep the order given by the "node order" column
+            old_to_new[node]._hatchet_nid = node._hatchet_nid
 
         # second pass hooks up parents and children
         for old, new in old_to_new.items():
-- 
2.43.0


From e10ca07e2a8399722bd8249dc5471cc67f6d9e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:10 +0000
Subject: [PATCH 20/60] fix: from_hdf restores the graph of graphframes with
 several rows per node

---
 hatchet/readers/dataframe_reader.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hatchet/readers/dataframe_reader.py b/hatchet/readers/dataframe_reader.py
index 7b298c2..4331bbf 100644
--- a/hatchet/readers/dataframe_reader.py
+++ b/hatchet/readers/dataframe_reader.py
@@ -46,14 +46,15 @@ def _get_parents_and_children(df):
 
 
 def _reconstruct_graph(df, rel_dict):
-    node_list = sorted(list(df.index.to_frame()["node"]))
+    # a node has several rows when there are other index levels
+    node_by_nid = {node._hatchet_nid: node for node in df.index.to_frame()["node"]}
     for i in range(len(df)):
         node = _get_node_from_df_iloc(df, i)
         if len(node.children) == 0:
-            node.children = [node_list[nid] for nid in rel_dict[node]["children"]]
+            node.children = [node_by_nid[nid] for nid in rel_dict[node]["children"]]
         if len(node.parents) == 0:
-            node.parents = [node_list[nid] for nid in rel_dict[node]["parents"]]
-    roots = [node for node in node_list if len(node.parents) == 0]
+            node.parents = [node_by_nid[nid] for nid in rel_dict[node]["parents"]]
+    roots = [node for node in sorted(node_by_nid.values()) if len(node.parents) == 0]
     return Graph(roots)
 
 
-- 
2.43.0


From b9be9acf462a2c48052c2e8c3019b5e611c7e701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:36 +0000
Subject: [PATCH 21/60] fix: the JSON reader restores nodes shared between
 roots and their depths

---
 hatchet/readers/json_reader.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/hatchet/readers/json_reader.py b/hatchet/readers/json_reader.py
index 407536b..2555eb8 100644
--- a/hatchet/readers/json_reader.py
+++ b/hatchet/readers/json_reader.py
@@ -29,30 +29,33 @@ class JsonReader:
 
     def read(self):
         roots = []
+        # turn frames into nodes, a node reachable from several roots is
+        # specified once per root
+        nodes = {}
+        node_specs = {}
         for graph_spec in self.spec_dict["graph"]:
-            # turn frames into nodes
             for nid, value in graph_spec.items():
-                graph_spec[nid]["data"] = Node(Frame(value["data"]), hnid=int(nid))
+                if nid not in nodes:
+                    nodes[nid] = Node(Frame(value["data"]), hnid=int(nid))
+                    node_specs[nid] = value
 
-            # connect nodes
-            for nid, value in graph_spec.items():
-                for child in value["children"]:
-                    child = str(child)
-                    value["data"].add_child(graph_spec[child]["data"])
-                    graph_spec[child]["data"].add_parent(value["data"])
+        # connect nodes
+        for nid, value in node_specs.items():
+            for child in value["children"]:
+                child = str(child)
+                nodes[nid].add_child(nodes[child])
+                nodes[child].add_parent(nodes[nid])
 
-            for nid, value in graph_spec.items():
-                if len(value["data"].parents) == 0:
-                    roots.append(value["data"])
+        for node in nodes.values():
+            if len(node.parents) == 0:
+                roots.append(node)
 
         grph = Graph(roots)
+        grph.enumerate_depth()
 
         # make the dataframes
         dataframe = pd.DataFrame(self.spec_dict["dataframe"])
-        for graph_spec in self.spec_dict["graph"]:
-            dataframe["node"] = dataframe["node"].map(
-                lambda n: graph_spec[str(n)]["data"] if (str(n) in graph_spec) else n
-            )
+        dataframe["node"] = dataframe["node"].map(lambda n: nodes[str(n)])
         dataframe.set_index(self.spec_dict["dataframe_indices"], inplace=True)
 
         return hatchet.graphframe.GraphFrame(
-- 
2.43.0


From e6f6dbea86ef34a0d9adfad16083516113b54429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:00 +0000
Subject: [PATCH 22/60] fix: a String-dialect query with a single braced region
 is parsed instead of being dropped

---
 hatchet/query/string_dialect.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index ed4e871..cfbca75 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -1498,17 +1498,15 @@ def parse_string_dialect(query_str, multi_index_mode="off"):
         # Get the MATCH clause that will be shared across the subqueries
         match_comp_obj = re.search(r"MATCH\s+(?P<match_field>.*)\s+WHERE", query_str)
         match_comp = match_comp_obj.group("match_field")
+        # Set the initial query as a CypherQuery where the MATCH clause is the
+        # shared match clause and the WHERE clause is the first curly
+        # brace-delimited region
+        query1 = "MATCH {} WHERE {}".format(match_comp, condition_list[0])
+        if sys.version_info[0] == 2:
+            query1 = query1.decode("utf-8")
+        full_query = StringQuery(query1, multi_index_mode)
         # Iterate over the compound operators
-        full_query = None
         for i, op in enumerate(compound_ops):
-            # If in the first iteration, set the initial query as a CypherQuery where
-            # the MATCH clause is the shared match clause and the WHERE clause is the
-            # first curly brace-delimited region
-            if i == 0:
-                query1 = "MATCH {} WHERE {}".format(match_comp, condition_list[i])
-                if sys.version_info[0] == 2:
-                    query1 = query1.decode("utf-8")
-                full_query = StringQuery(query1, multi_index_mode)
             # Get the next query as a CypherQuery where
             # the MATCH clause is the shared match clause and the WHERE clause is the
             # next curly brace-delimited region
@@ -1533,13 +1531,11 @@ def parse_string_dialect(query_str, multi_index_mode="off"):
             raise ValueError(
                 "Incompatible number of curly brace elements and compound operators"
             )
+        # Set the initial query as the result of recursively calling this
+        # function on the first curly brace-delimited region
+        full_query = parse_string_dialect(query_list[0])
         # Iterate over the compound operators
-        full_query = None
         for i, op in enumerate(compound_ops):
-            # If in the first iteration, set the initial query as the result
-            # of recursively calling this function on the first curly brace-delimited region
-            if i == 0:
-                full_query = parse_string_dialect(query_list[i])
             # Get the next query by recursively calling this function
             # on the next curly brace-delimited region
             next_query = parse_string_dialect(query_list[i + 1])
-- 
2.43.0


From 98bde19dea0e263db784354ba3d1086cd8bf1a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:25 +0000
Subject: [PATCH 23/60] fix: braced String-dialect queries keep the multi-index
 mode

---
 hatchet/query/string_dialect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index cfbca75..bbce2df 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -1533,12 +1533,12 @@ def parse_string_dialect(query_str, multi_index_mode="off"):
             )
         # Set the initial query as the result of recursively calling this
         # function on the first curly brace-delimited region
-        full_query = parse_string_dialect(query_list[0])
+        full_query = parse_string_dialect(query_list[0], multi_index_mode)
         # Iterate over the compound operators
         for i, op in enumerate(compound_ops):
             # Get the next query by recursively calling this function
             # on the next curly brace-delimited region
-            next_query = parse_string_dialect(query_list[i + 1])
+            next_query = parse_string_dialect(query_list[i + 1], multi_index_mode)
             # Add the next query to the full query using the compound operator
             # currently being considered
             if op == "AND":
-- 
2.43.0


From 7588a5ff03fe0910b3f40e15c8db7b7856bd3c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:36 +0000
Subject: [PATCH 24/60] fix: follow chained merges when normalizing a graph
 with shared nodes

---
 hatchet/graph.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index bae994b..30f838f 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -99,17 +99,25 @@ class Graph:
             index = index_by("frame", node_list)
             for frame, children in index.items():
                 if len(children) > 1:
-                    min_id = min(children, key=node_traversal_order)
+                    # A child shared with another parent may already be merged
+                    # into a node outside of this group.
+                    targets = [merges.get(child, child) for child in children]
+                    # Get the new merged_node
+                    curr_min = min(targets, key=node_traversal_order)
+                    for target in targets:
+                        # Nodes merged into the target earlier follow it.
+                        if target in inverted_merges and target != curr_min:
+                            for child in inverted_merges.pop(target):
+                                merges[child] = curr_min
+                                inverted_merges[curr_min].append(child)
                     for child in children:
-                        prev_min = merges.get(child, min_id)
-                        # Get the new merged_node
-                        curr_min = min([min_id, prev_min], key=node_traversal_order)
                         # Save the new merged_node to the merges dict
                         # so that the merge can happen later.
                         merges[child] = curr_min
                         # Update inverted_merges to be able to set node_list
                         # to the right value.
-                        inverted_merges[curr_min].append(child)
+                        if child not in inverted_merges[curr_min]:
+                            inverted_merges[curr_min].append(child)
 
         _find_child_merges(self.roots)
         for node in self.traverse():
-- 
2.43.0


From 9ef6c31b19b70f9d22601622f7b9d60f0533c85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:28 +0000
Subject: [PATCH 25/60] fix: graphs whose shared nodes differ, and nodes
 without ids, no longer compare equal

---
 hatchet/graph.py |  4 ++--
 hatchet/node.py  | 19 +++++++++++--------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index 30f838f..68c4a16 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -397,8 +397,8 @@ class Graph:
         """Check if two graphs have the same structure by comparing frame at each
         node.
         """
-        vs = set()
-        vo = set()
+        vs = {}
+        vo = {}
 
         # if both graphs are pointing to the same object, then graphs are equal
         if self is other:
diff --git a/hatchet/node.py b/hatchet/node.py
index eca5864..2c373ce 100644
--- a/hatchet/node.py
+++ b/hatchet/node.py
@@ -75,13 +75,14 @@ class Node:
         """Check if DAG rooted at self has the same structure as that rooted at
         other.
         """
+        # nodes visited so far, with the node each was matched to
         if vs is None:
-            vs = set()
+            vs = {}
         if vo is None:
-            vo = set()
+            vo = {}
 
-        vs.add(self._hatchet_nid)
-        vo.add(other._hatchet_nid)
+        vs[id(self)] = id(other)
+        vo[id(other)] = id(self)
 
         # if number of children do not match, then nodes are not equal
         if len(self.children) != len(other.children):
@@ -96,15 +97,17 @@ class Node:
             if self_child.frame != other_child.frame:
                 return False
 
-            visited_s = self_child._hatchet_nid in vs
-            visited_o = other_child._hatchet_nid in vo
+            visited_s = id(self_child) in vs
+            visited_o = id(other_child) in vo
 
             # check for duplicate nodes
             if visited_s != visited_o:
                 return False
 
-            # skip visited nodes
-            if visited_s or visited_o:
+            # skip visited nodes, they must have been matched to each other
+            if visited_s:
+                if vs[id(self_child)] != id(other_child):
+                    return False
                 continue
 
             # recursive check for node equality
-- 
2.43.0


From 129100f89d9345542be6c57aadece9f2a0eef644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:23 +0000
Subject: [PATCH 26/60] fix: start query matches at every query node that only
 follows '*' nodes

---
 hatchet/query/engine.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/hatchet/query/engine.py b/hatchet/query/engine.py
index 707a565..d546b76 100644
--- a/hatchet/query/engine.py
+++ b/hatchet/query/engine.py
@@ -173,7 +173,7 @@ class QueryEngine:
         # Starting query node
         pattern_idx = match_idx + 1
         if query.query_pattern[match_idx][0] == "*":
-            pattern_idx = 0
+            pattern_idx = match_idx
         # Starting matching pattern
         matches = [[pattern_root]]
         while pattern_idx < len(query):
@@ -242,15 +242,15 @@ class QueryEngine:
         # If the node matches the starting/root node of the query,
         # try to get all query matches in the subgraph rooted at
         # this node.
-        if query.query_pattern[0][0] == "*":
-            if 1 in self.search_cache[node._hatchet_nid]:
-                sub_match = self._match_pattern(query, dframe, node, 1)
+        for start_idx in range(len(query)):
+            if start_idx in self.search_cache[node._hatchet_nid]:
+                sub_match = self._match_pattern(query, dframe, node, start_idx)
                 if sub_match is not None:
                     matches.extend(sub_match)
-        if 0 in self.search_cache[node._hatchet_nid]:
-            sub_match = self._match_pattern(query, dframe, node, 0)
-            if sub_match is not None:
-                matches.extend(sub_match)
+            # The next query node can only start a match if this one can
+            # match zero nodes.
+            if query.query_pattern[start_idx][0] != "*":
+                break
         # Note that the node is now visited.
         visited.add(node._hatchet_nid)
         # Continue the Depth First Search.
-- 
2.43.0


From 1f0bbad95f6b60e4a82448c64a3311c5ac4ba26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:50 +0000
Subject: [PATCH 27/60] fix: '*' in a query also matches nodes that match the
 following query node

---
 hatchet/query/engine.py | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/hatchet/query/engine.py b/hatchet/query/engine.py
index d546b76..c80faa3 100644
--- a/hatchet/query/engine.py
+++ b/hatchet/query/engine.py
@@ -100,34 +100,39 @@ class QueryEngine:
         # Cache the node if it's not already cached
         if node._hatchet_nid not in self.search_cache:
             self._cache_node(node, query, dframe)
-        # If the node matches with the next non-wildcard query node,
-        # end the recursion and return the node.
-        if wcard_idx + 1 in self.search_cache[node._hatchet_nid]:
-            return [[]]
+        matches = []
+        # If the node matches the next query node, or if the next query
+        # node can match zero nodes, the "*" predicate can end before
+        # this node.
+        if wcard_idx + 1 < len(query) and (
+            wcard_idx + 1 in self.search_cache[node._hatchet_nid]
+            or query.query_pattern[wcard_idx + 1][0] == "*"
+        ):
+            matches.append([])
         # If the node matches the "*" wildcard query, recursively
         # apply this function to the current node's children. Then,
         # collect their returned matches, and prepend the current node.
-        elif wcard_idx in self.search_cache[node._hatchet_nid]:
-            matches = []
+        if wcard_idx in self.search_cache[node._hatchet_nid]:
             if len(node.children) == 0:
-                if wcard_idx == len(query) - 1:
-                    return [[node]]
-                return None
+                # The path ends here, so the remaining query nodes must
+                # be able to match zero nodes.
+                if all(wcard == "*" for wcard, _ in query.query_pattern[wcard_idx:]):
+                    matches.append([node])
             for child in sorted(node.children, key=traversal_order):
                 sub_match = self._match_0_or_more(query, dframe, child, wcard_idx)
                 if sub_match is not None:
-                    matches.extend(sub_match)
-            if len(matches) == 0:
-                return None
+                    matches.extend([node] + m for m in sub_match)
             tmp = set(tuple(m) for m in matches)
             matches = [list(t) for t in tmp]
-            return [[node] + m for m in matches]
+        # If the current node doesn't match the last "*" wildcard, the
+        # match ends before this node.
+        elif wcard_idx == len(query) - 1:
+            matches.append([])
         # If the current node doesn't match the current "*" wildcard or
-        # the next non-wildcard query node, return None.
-        else:
-            if wcard_idx == len(query) - 1:
-                return [[]]
+        # the next query node, return None.
+        if len(matches) == 0:
             return None
+        return matches
 
     def _match_1(self, query, dframe, node, idx):
         """Process a "." predicate in the query on a subgraph.
-- 
2.43.0


From 1517c975c3c4e2553fe89599943153fbd3486e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:07 +0000
Subject: [PATCH 28/60] fix: Object-dialect comparisons with NaN and infinite
 metric values

---
 hatchet/query/object_dialect.py | 39 ++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/hatchet/query/object_dialect.py b/hatchet/query/object_dialect.py
index e401037..a9f5ce9 100644
--- a/hatchet/query/object_dialect.py
+++ b/hatchet/query/object_dialect.py
@@ -27,6 +27,23 @@ def _process_multi_index_mode(apply_result, multi_index_mode):
     )
 
 
+def _eval_comparison(value, comparison):
+    """Evaluates a comparison (e.g., "> 5") against a single metric value"""
+    if pd.isnull(value):
+        # NaN is only considered to be equal to NaN
+        # (e.g., np.nan == np.nan)
+        if "np.nan" in comparison and "==" in comparison:
+            return True
+        if "np.nan" in comparison:
+            return False
+        # compare nan metric value to numeric query
+        # (e.g. np.nan > 5)
+        value = "np.nan"
+    elif np.isinf(value):
+        value = "np.inf" if value > 0 else "-np.inf"
+    return eval("{} {}".format(value, comparison))
+
+
 def _process_predicate(attr_filter, multi_index_mode):
     """Converts high-level API attribute filter to a lambda"""
     compops = ("<", ">", "==", ">=", "<=", "<>", "!=")  # ,
@@ -74,25 +91,7 @@ def _process_predicate(attr_filter, multi_index_mode):
                 if isinstance(single_value, str) and single_value.lower().startswith(
                     compops
                 ):
-                    # compare nan metric value to numeric query
-                    # (e.g. np.nan > 5)
-                    if pd.isnull(df_row[key]):
-                        nan_str = "np.nan"
-                        # compare nan metric value to nan query
-                        # (e.g., np.nan == np.nan)
-                        if nan_str in single_value:
-                            return eval("pd.isnull({}) == True".format(nan_str))
-                        return eval("{} {}".format(nan_str, single_value))
-                    elif np.isinf(df_row[key]):
-                        inf_str = "np.inf"
-                        # compare inf metric value to inf query
-                        # (e.g., np.inf == np.inf)
-                        if inf_str in single_value:
-                            return eval("np.isinf({}) == True".format(inf_str))
-                        return eval("{} {}".format(inf_str, single_value))
-                    else:
-                        return eval("{} {}".format(df_row[key], single_value))
-
+                    return _eval_comparison(df_row[key], single_value)
                 if isinstance(single_value, Real):
                     return df_row[key] == single_value
                 raise InvalidQueryFilter(
@@ -168,7 +167,7 @@ def _process_predicate(attr_filter, multi_index_mode):
                     compops
                 ):
                     apply_ret = df_row[key].apply(
-                        lambda x: eval("{} {}".format(x, single_value))
+                        lambda x: _eval_comparison(x, single_value)
                     )
                     return _process_multi_index_mode(apply_ret, multi_index_mode)
                 if isinstance(single_value, Real):
-- 
2.43.0


From 8fad9a02f336c5fb8f3350bdd1a0986f76f3acf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:37 +0000
Subject: [PATCH 29/60] fix: Object-dialect numeric equality follows the
 multi-index mode

---
 hatchet/query/object_dialect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/query/object_dialect.py b/hatchet/query/object_dialect.py
index a9f5ce9..0f85e19 100644
--- a/hatchet/query/object_dialect.py
+++ b/hatchet/query/object_dialect.py
@@ -171,7 +171,7 @@ def _process_predicate(attr_filter, multi_index_mode):
                     )
                     return _process_multi_index_mode(apply_ret, multi_index_mode)
                 if isinstance(single_value, Real):
-                    apply_ret = df_row[key].apply(lambda x: x == single_value).any()
+                    apply_ret = df_row[key].apply(lambda x: x == single_value)
                     return _process_multi_index_mode(apply_ret, multi_index_mode)
                 raise InvalidQueryFilter(
                     "Attribute {} has a numeric type. Valid filters for this attribute are a string starting with a comparison operator or a real number.".format(
-- 
2.43.0


From 59120578ab746aed4702ed3dc3fa9ad59aa9470b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:06 +0000
Subject: [PATCH 30/60] fix: depth -1 selects leaves in multi-index
 Object-dialect queries as well

---
 hatchet/query/object_dialect.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hatchet/query/object_dialect.py b/hatchet/query/object_dialect.py
index 0f85e19..053a288 100644
--- a/hatchet/query/object_dialect.py
+++ b/hatchet/query/object_dialect.py
@@ -133,6 +133,9 @@ def _process_predicate(attr_filter, multi_index_mode):
                 ):
                     return eval("{} {}".format(node._depth, single_value))
                 if isinstance(single_value, Real):
+                    # If the value for "depth" is -1, check if the node is a leaf
+                    if single_value == -1:
+                        return len(node.children) == 0
                     return node._depth == single_value
                 raise InvalidQueryFilter(
                     "Attribute {} has a numeric type. Valid filters for this attribute are a string starting with a comparison operator or a real number.".format(
-- 
2.43.0


From e7ad23436b5702341cce78e5acf77477754bc522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:32 +0000
Subject: [PATCH 31/60] fix: String-dialect conditions without a type check may
 come first

---
 hatchet/query/string_dialect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index bbce2df..e4ab475 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -150,12 +150,12 @@ class StringQuery(Query):
             if n[1] != "":
                 bool_expr = ""
                 type_check = ""
-                for j, cond in enumerate(self.filters[i]):
+                for cond in self.filters[i]:
                     if cond[0] is not None:
                         bool_expr += " {}".format(cond[0])
                     bool_expr += " {}".format(cond[1])
                     if cond[2] is not None:
-                        if j == 0:
+                        if type_check == "":
                             type_check += " {}".format(cond[2])
                         else:
                             type_check += " and {}".format(cond[2])
-- 
2.43.0


From d846ee4b446559ef73f87cb673f29239b5b10453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:57 +0000
Subject: [PATCH 32/60] fix: accept String-dialect queries without a WHERE
 clause

---
 hatchet/query/string_dialect.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index e4ab475..841d2bd 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -115,7 +115,8 @@ class StringQuery(Query):
         self.wcard_pos = {}
         self._parse_path(model.path_expr)
         self.filters = [[] for _ in self.wcards]
-        self._parse_conditions(model.cond_expr)
+        if model.cond_expr is not None:
+            self._parse_conditions(model.cond_expr)
         self.lambda_filters = [None for _ in self.wcards]
         self._build_lambdas()
         self._build_query()
-- 
2.43.0


From f6cb185e3199c64aa847bda270aa025248ee2d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:23 +0000
Subject: [PATCH 33/60] fix: IS NOT NAN and IS NOT INF quantify over the rows
 like the other multi-index conditions

---
 hatchet/query/string_dialect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index 841d2bd..7394e9f 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -1298,7 +1298,7 @@ class StringQuery(Query):
             None,
             obj.name,
             self._add_aggregation_call_to_multi_idx_predicate(
-                'not pd.isna(df_row["{}"])'.format(obj.prop)
+                'pd.notna(df_row["{}"])'.format(obj.prop)
             ),
             "is_numeric_dtype(df_row['{}'])".format(obj.prop),
         ]
@@ -1392,7 +1392,7 @@ class StringQuery(Query):
             None,
             obj.name,
             self._add_aggregation_call_to_multi_idx_predicate(
-                'not np.isinf(df_row["{}"])'.format(obj.prop)
+                '(~np.isinf(df_row["{}"]))'.format(obj.prop)
             ),
             "is_numeric_dtype(df_row['{}'])".format(obj.prop),
         ]
-- 
2.43.0


From 98cfcce1673076d5f9f03eab67db7d2c86bc6989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:59 +0000
Subject: [PATCH 34/60] fix: ~ negates new-style queries (there is no __not__
 operator)

---
 hatchet/query/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hatchet/query/__init__.py b/hatchet/query/__init__.py
index 77e5bfd..4a91951 100644
--- a/hatchet/query/__init__.py
+++ b/hatchet/query/__init__.py
@@ -60,12 +60,14 @@ Query.__and__ = combine_via_conjunction
 Query.__or__ = combine_via_disjunction
 Query.__xor__ = combine_via_exclusive_disjunction
 Query.__not__ = negate_query
+Query.__invert__ = negate_query
 
 
 CompoundQuery.__and__ = combine_via_conjunction
 CompoundQuery.__or__ = combine_via_disjunction
 CompoundQuery.__xor__ = combine_via_exclusive_disjunction
 CompoundQuery.__not__ = negate_query
+CompoundQuery.__invert__ = negate_query
 
 
 def is_hatchet_query(query_obj):
-- 
2.43.0


From 40124a1f702a83e631b7dd5d9c261d98f43a7ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:35 +0000
Subject: [PATCH 35/60] fix: accept named nodes without conditions in
 String-dialect queries

---
 hatchet/query/string_dialect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index 7394e9f..f0f1434 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -148,7 +148,7 @@ class StringQuery(Query):
         """
         for i in range(0, len(self.wcards)):
             n = self.wcards[i]
-            if n[1] != "":
+            if n[1] != "" and len(self.filters[i]) > 0:
                 bool_expr = ""
                 type_check = ""
                 for cond in self.filters[i]:
-- 
2.43.0


From e45713e06d630889ed2fede01b1995b10593667b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:36 +0000
Subject: [PATCH 36/60] fix: Object-dialect queries on multi-index tables do
 not need a name column

---
 hatchet/query/object_dialect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/query/object_dialect.py b/hatchet/query/object_dialect.py
index 053a288..2c40b43 100644
--- a/hatchet/query/object_dialect.py
+++ b/hatchet/query/object_dialect.py
@@ -186,7 +186,7 @@ def _process_predicate(attr_filter, multi_index_mode):
             )
 
         matches = True
-        node = df_row.name.to_frame().index[0][0]
+        node = df_row.index.get_level_values("node")[0]
         for k, v in attr_filter.items():
             try:
                 _ = iter(v)
-- 
2.43.0


From c26886325c39f66e85731a5eb20e28648421b055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:49 +0000
Subject: [PATCH 37/60] fix: SpotDB metrics and default metric do not depend on
 the hash seed

---
 hatchet/readers/spotdb_reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hatchet/readers/spotdb_reader.py b/hatchet/readers/spotdb_reader.py
index 3913e1d..2aa0528 100644
--- a/hatchet/readers/spotdb_reader.py
+++ b/hatchet/readers/spotdb_reader.py
@@ -45,7 +45,7 @@ class SpotDatasetReader:
         self.metadata = metadata
         self.df_data = []
         self.roots = {}
-        self.metric_columns = set()
+        self.metric_columns = []
 
         self.timer = Timer()
 
@@ -77,7 +77,8 @@ class SpotDatasetReader:
                     metrics[colm] = int(v)
                 else:
                     metrics[colm] = v
-                self.metric_columns.add(colm)
+                if colm not in self.metric_columns:
+                    self.metric_columns.append(colm)
 
             self.df_data.append(dict({"name": name, "node": node}, **metrics))
 
-- 
2.43.0


From 2846a2441c39a20afceae86c4cc8f38fba7b55a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:09 +0000
Subject: [PATCH 38/60] fix: caliper labels of unknown nodes do not depend on
 files read before

---
 hatchet/readers/caliper_reader.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index b738258..f4aa68d 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -20,8 +20,6 @@ from hatchet.frame import Frame
 from hatchet.util.timer import Timer
 from hatchet.util.executable import which
 
-unknown_label_counter = 0
-
 
 class CaliperReader:
     """Read in a Caliper file (`cali` or split JSON) or file-like object."""
@@ -143,7 +141,7 @@ class CaliperReader:
     def create_graph(self):
         list_roots = []
 
-        global unknown_label_counter
+        unknown_label_counter = 0
         order = -1
 
         # find nodes in the nodes section that represent the path hierarchy
-- 
2.43.0


From 20f411b0ca8764ad1c8c53301f4a1f163d537c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:31 +0000
Subject: [PATCH 39/60] fix: TAU metrics do not depend on the order of
 directory entries

---
 hatchet/readers/tau_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hatchet/readers/tau_reader.py b/hatchet/readers/tau_reader.py
index aed2af1..7d914ee 100644
--- a/hatchet/readers/tau_reader.py
+++ b/hatchet/readers/tau_reader.py
@@ -240,6 +240,8 @@ class TAUReader:
         # files -> returns filenames in a directory, list
         profile_filenames = []
         for dirpath, dirnames, files in os.walk(self.dirname):
+            # visit the directories in the same order on every file system
+            dirnames.sort()
             profiles_in_dir = glob.glob(dirpath + "/profile.*")
             if profiles_in_dir:
                 # sort input files in each directory in the same order
-- 
2.43.0


From faa2d873be0109f5e5db0e48d538555aff845291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:50 +0000
Subject: [PATCH 40/60] fix: timemory metrics do not depend on the order of
 directory entries

---
 hatchet/readers/timemory_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/readers/timemory_reader.py b/hatchet/readers/timemory_reader.py
index cc4de2b..ca850f0 100644
--- a/hatchet/readers/timemory_reader.py
+++ b/hatchet/readers/timemory_reader.py
@@ -573,7 +573,7 @@ class TimemoryReader:
             self.graph_dict = self.input
         # check if the input is a directory and get '.tree.json' files if true.
         elif os.path.isdir(self.input):
-            tree_files = glob.glob(self.input + "/*.tree.json")
+            tree_files = sorted(glob.glob(self.input + "/*.tree.json"))
             for file in tree_files:
                 # read all files that end with .tree.json.
                 with open(file, "r") as f:
-- 
2.43.0


From 14c0344a2134191df82a5c5fa773ba71336858a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:46 +0000
Subject: [PATCH 41/60] fix: HPCToolkit statements take the file of the scope
 they are in

---
 hatchet/readers/hpctoolkit_reader.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/hatchet/readers/hpctoolkit_reader.py b/hatchet/readers/hpctoolkit_reader.py
index a0e0dae..75dd087 100644
--- a/hatchet/readers/hpctoolkit_reader.py
+++ b/hatchet/readers/hpctoolkit_reader.py
@@ -39,9 +39,6 @@ from hatchet.util.timer import Timer
 from hatchet.frame import Frame
 
 
-src_file = 0
-
-
 def init_shared_array(buf_):
     """Initialize shared array."""
     global shared_metrics
@@ -107,7 +104,7 @@ class HPCToolkitReader:
 
         # For a parallel run, there should be one metric-db file per MPI
         # process
-        metricdb_files = glob.glob(self.dir_name + "/*.metric-db")
+        metricdb_files = sorted(glob.glob(self.dir_name + "/*.metric-db"))
         self.num_metricdb_files = len(metricdb_files)
 
         # We need to know how many threads per rank there are. This counts the
@@ -252,8 +249,6 @@ class HPCToolkitReader:
 
         # parse the ElementTree to generate a calling context tree
         for root in self.callpath_profile.findall("PF"):
-            global src_file
-
             nid = int(root.get("i"))
             src_file = root.get("f")
 
@@ -280,7 +275,7 @@ class HPCToolkitReader:
 
             # start graph construction at the root
             with self.timer.phase("graph construction"):
-                self.parse_xml_children(root, graph_root)
+                self.parse_xml_children(root, graph_root, src_file)
 
             # put updated metrics back in dataframe
             for i, column in enumerate(self.metric_columns):
@@ -318,19 +313,18 @@ class HPCToolkitReader:
 
         return hatchet.graphframe.GraphFrame(graph, dataframe, exc_metrics, inc_metrics)
 
-    def parse_xml_children(self, xml_node, hnode):
+    def parse_xml_children(self, xml_node, hnode, src_file):
         """Parses all children of an XML node."""
         for xml_child in xml_node:
             if xml_child.tag != "M":
                 nid = int(xml_node.get("i"))
                 line = int(xml_node.get("l"))
-                self.parse_xml_node(xml_child, nid, line, hnode)
+                self.parse_xml_node(xml_child, nid, line, hnode, src_file)
 
-    def parse_xml_node(self, xml_node, parent_nid, parent_line, hparent):
+    def parse_xml_node(self, xml_node, parent_nid, parent_line, hparent, src_file):
         """Parses an XML node and its children recursively."""
         nid = int(xml_node.get("i"))
 
-        global src_file
         xml_tag = xml_node.tag
 
         if xml_tag == "PF" or xml_tag == "Pr":
@@ -408,11 +402,11 @@ class HPCToolkitReader:
             # for Prs, the preceding Pr has the calling line number and for
             # PFs, the preceding C has the line number
             line = int(xml_node.get("l"))
-            self.parse_xml_children(xml_node, hparent)
+            self.parse_xml_children(xml_node, hparent, src_file)
         else:
             self.node_dicts.append(node_dict)
             hparent.add_child(hnode)
-            self.parse_xml_children(xml_node, hnode)
+            self.parse_xml_children(xml_node, hnode, src_file)
 
     def create_node_dict(self, nid, hnode, name, node_type, src_file, line, module):
         """Create a dict with all the node attributes."""
-- 
2.43.0


From 4d2b5b64a16d9190b3b550d099a30d542942107a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:42 +0000
Subject: [PATCH 42/60] fix: TAU reader closes the profiles it opens

---
 hatchet/readers/tau_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/tau_reader.py b/hatchet/readers/tau_reader.py
index 7d914ee..709adc2 100644
--- a/hatchet/readers/tau_reader.py
+++ b/hatchet/readers/tau_reader.py
@@ -272,7 +272,8 @@ class TAUReader:
             file_data = []
             for f_index in range(len(filenames_per_rank)):
                 # Store the lines after metadata.
-                file_data.append(open(filenames_per_rank[f_index], "r").readlines()[2:])
+                with open(filenames_per_rank[f_index], "r") as f:
+                    file_data.append(f.readlines()[2:])
 
             # Get the root information from only the first file to compare them
             # with others.
-- 
2.43.0


From 6059d0939af16d86157bfc89ae0941076fb89613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 43/60] fix: filter does not lower the recursion limit of the
 calling program

---
 hatchet/graphframe.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 5d2d275..23bbff2 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -458,7 +458,8 @@ class GraphFrame:
             rec_limit: set Python recursion limit, increase if running into
                 recursion depth errors) (default: 1000).
         """
-        sys.setrecursionlimit(rec_limit)
+        # never lower the limit of the calling program
+        sys.setrecursionlimit(max(rec_limit, sys.getrecursionlimit()))
 
         dataframe_copy = self.dataframe.copy()
 
-- 
2.43.0


From bb51ce5e1715d6c49dce5218acbcdfaa6de8f936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 44/60] fix: a Caliper file without hierarchy raises an error
 instead of exiting

---
 hatchet/readers/caliper_reader.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index f4aa68d..1cc580a 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -4,7 +4,6 @@
 # SPDX-License-Identifier: MIT
 
 import json
-import sys
 import re
 import subprocess
 import os
@@ -99,7 +98,7 @@ class CaliperReader:
             self.node_type = "region"
             self.both_hierarchies = False
         else:
-            sys.exit("No hierarchy column in input file")
+            raise ValueError("No hierarchy column in input file")
 
         # remove data entries containing None in `path` column (null in json file)
         # first, get column where `path` data is
-- 
2.43.0


From 386b8c2b11fa67cc841fa6909f62955f324fce35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:46 +0000
Subject: [PATCH 45/60] fix: from_caliper waits for cali-query and reports its
 failure

---
 hatchet/readers/caliper_reader.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index 1cc580a..afb030c 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -3,6 +3,7 @@
 #
 # SPDX-License-Identifier: MIT
 
+import io
 import json
 import re
 import subprocess
@@ -58,11 +59,11 @@ class CaliperReader:
             cali_query = which("cali-query")
             if not cali_query:
                 raise ValueError("from_caliper() needs cali-query to query .cali file")
-            cali_json = subprocess.Popen(
-                [cali_query, "-q", self.query, self.filename_or_stream],
-                stdout=subprocess.PIPE,
+            # wait for cali-query, and raise an error if it fails
+            cali_json = subprocess.check_output(
+                [cali_query, "-q", self.query, self.filename_or_stream]
             )
-            self.filename_or_stream = cali_json.stdout
+            self.filename_or_stream = io.BytesIO(cali_json)
 
         # if filename_or_stream is a str, then open the file, otherwise
         # directly load the file-like object
-- 
2.43.0


From ee882640b0dd51f9548515225834dbca3528e10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:12 +0000
Subject: [PATCH 46/60] fix: Node.path and from_lists raise their own errors

---
 hatchet/graph.py | 2 +-
 hatchet/node.py  | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index 68c4a16..2ce9549 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -433,7 +433,7 @@ class Graph:
         """Convenience method to invoke Node.from_lists() on each root value."""
         if not all(isinstance(r, (list, tuple)) for r in roots):
             raise ValueError(
-                "All arguments to Graph.from_lists() must be lists: %s" % roots
+                "All arguments to Graph.from_lists() must be lists: %s" % (roots,)
             )
 
         graph = Graph([Node.from_lists(r) for r in roots])
diff --git a/hatchet/node.py b/hatchet/node.py
index 2c373ce..94ef647 100644
--- a/hatchet/node.py
+++ b/hatchet/node.py
@@ -68,7 +68,7 @@ class Node:
         """
         paths = self.paths()
         if len(paths) > 1:
-            raise MultiplePathError("Node has more than one path: " % paths)
+            raise MultiplePathError("Node has more than one path: %s" % paths)
         return paths[0]
 
     def dag_equal(self, other, vs=None, vo=None):
@@ -263,6 +263,10 @@ In the above examples, the 'a' represents a Node with its
                     node = lists[0]
                 elif isinstance(lists[0], str):
                     node = Node(Frame(name=lists[0]))
+                else:
+                    raise ValueError(
+                        "First element must be str or Node: %s" % (lists[0],)
+                    )
                 children = lists[1:]
                 for val in children:
                     _ = _from_lists(val, node)
-- 
2.43.0


From 6c1728e836c999a5b5e924417e0763e4632ce028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 47/60] fix: an unknown colormap raises ValueError

---
 hatchet/util/colormaps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/util/colormaps.py b/hatchet/util/colormaps.py
index b3b23ce..998f272 100644
--- a/hatchet/util/colormaps.py
+++ b/hatchet/util/colormaps.py
@@ -125,7 +125,7 @@ class ColorMaps:
             self.colors = self.Spectral.copy()
         else:
             raise ValueError(
-                self.colormap
+                str(colormap)
                 + " is an incorrect colormap. Select one BrBG, PiYg, PRGn,"
                 + " PuOr, RdBu, RdGy, RdYlBu, RdYlGn, or Spectral."
             )
-- 
2.43.0


From cca404b52790ce0b7c17f89c6b3cf42480f774e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:04 +0000
Subject: [PATCH 48/60] fix: errors of the native Caliper reader are raised

---
 hatchet/readers/caliper_native_reader.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index 171fda6..dc847ad 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -17,7 +17,7 @@ from hatchet.frame import Frame
 from hatchet.util.timer import Timer
 
 
-def __raise_cali_type_error(msg):
+def _raise_cali_type_error(msg):
     raise ValueError(msg)
 
 
@@ -25,10 +25,10 @@ class CaliperNativeReader:
     """Read in a native `.cali` file using Caliper's python reader."""
 
     __cali_type_dict = {
-        "inv": lambda dummy: __raise_cali_type_error(
+        "inv": lambda dummy: _raise_cali_type_error(
             "Caliper type 'inv' is unsupported in Hatchet"
         ),
-        "usr": lambda dummy: __raise_cali_type_error(
+        "usr": lambda dummy: _raise_cali_type_error(
             "Custom Caliper types are unsupported in Hatchet"
         ),
         "int": np.int64,
@@ -37,10 +37,10 @@ class CaliperNativeReader:
         "addr": np.uint64,
         "double": np.float64,
         "bool": bool,
-        "type": lambda dummy: __raise_cali_type_error(
+        "type": lambda dummy: _raise_cali_type_error(
             "Caliper 'type' types are unsupported in Hatchet"
         ),
-        "ptr": lambda dummy: __raise_cali_type_error(
+        "ptr": lambda dummy: _raise_cali_type_error(
             "Caliper 'ptr' types are for internal use only!"
         ),
     }
@@ -278,7 +278,7 @@ class CaliperNativeReader:
                                 parent_callpath = node_callpath[:-1]
                                 node_type = "memcpy"
                             else:
-                                Exception("Haven't seen this activity kind yet")
+                                raise ValueError("Haven't seen this activity kind yet")
                         else:
                             node_label = record[ctx][-1]
                             node_callpath = tuple(record[ctx])
-- 
2.43.0


From b422cf37d17f7b37280144d5e9a1724e62b3a272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:29 +0000
Subject: [PATCH 49/60] fix: Profiler misuse raises an error with its message

---
 hatchet/util/profiler.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hatchet/util/profiler.py b/hatchet/util/profiler.py
index 22ce80d..1ca97a6 100644
--- a/hatchet/util/profiler.py
+++ b/hatchet/util/profiler.py
@@ -46,10 +46,9 @@ class Profiler:
         Description: Place before the block of code to be profiled.
         """
         if self._active:
-            print(
+            raise RuntimeError(
                 "Start dissallowed in scope where profiler is running. Please add Profiler.stop() before attempting start."
             )
-            raise
 
         self._active = True
         self._prf.enable()
@@ -68,10 +67,9 @@ class Profiler:
         Description: Resets the profilier.
         """
         if self._active:
-            print(
+            raise RuntimeError(
                 "Reset dissallowed in scope where profiler is running. Please add Profiler.stop() before attempting reset."
             )
-            raise
 
         self._prf = cProfile.Profile()
 
-- 
2.43.0


From a211df19a0c9c6ff1e2b316fcceff1f12fbfd65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 50/60] fix: tree without colors shows annotations that have a
 colormap

---
 hatchet/external/console.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hatchet/external/console.py b/hatchet/external/console.py
index 613b523..7a53453 100644
--- a/hatchet/external/console.py
+++ b/hatchet/external/console.py
@@ -94,6 +94,8 @@ class ConsoleRenderer:
                     self.colors_annotations_mapping = self.colormap_annotations
         else:
             self.colors = self.colors_disabled
+            # annotations have no colors either
+            self.colormap_annotations = None
 
         if isinstance(self.metric_columns, str):
             self.primary_metric = self.metric_columns
-- 
2.43.0


From c9617110b394975b53ffa8824d68e878de2d0d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:14 +0000
Subject: [PATCH 51/60] fix: tree honors a min_value or max_value of zero

---
 hatchet/external/console.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hatchet/external/console.py b/hatchet/external/console.py
index 7a53453..6920b3e 100644
--- a/hatchet/external/console.py
+++ b/hatchet/external/console.py
@@ -143,8 +143,12 @@ class ConsoleRenderer:
             metric_series.values[isfinite_mask], metric_series.index[isfinite_mask]
         )
 
-        self.max_metric = self.max_value if self.max_value else filtered_series.max()
-        self.min_metric = self.min_value if self.min_value else filtered_series.min()
+        self.max_metric = (
+            self.max_value if self.max_value is not None else filtered_series.max()
+        )
+        self.min_metric = (
+            self.min_value if self.min_value is not None else filtered_series.min()
+        )
 
         if self.unicode:
             self.lr_arrows = {"◀": "◀ ", "▶": "▶ "}
-- 
2.43.0


From 77d77978e4dde56839d152b041c3172c1937631a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:36 +0000
Subject: [PATCH 52/60] fix: tree selects the rank by the name of its level

---
 hatchet/external/console.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/external/console.py b/hatchet/external/console.py
index 6920b3e..314871e 100644
--- a/hatchet/external/console.py
+++ b/hatchet/external/console.py
@@ -135,7 +135,7 @@ class ConsoleRenderer:
         # nan values
 
         if "rank" in dataframe.index.names:
-            metric_series = (dataframe.xs(self.rank, level=1))[self.primary_metric]
+            metric_series = (dataframe.xs(self.rank, level="rank"))[self.primary_metric]
         else:
             metric_series = dataframe[self.primary_metric]
         isfinite_mask = np.isfinite(metric_series.values)
-- 
2.43.0


From 030a4c29c16d4f1e33b6e120e5560da8229ba065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:42 +0000
Subject: [PATCH 53/60] fix: literal reader lists the metrics of all nodes

---
 hatchet/readers/literal_reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hatchet/readers/literal_reader.py b/hatchet/readers/literal_reader.py
index 6409c29..6bf2e9b 100644
--- a/hatchet/readers/literal_reader.py
+++ b/hatchet/readers/literal_reader.py
@@ -158,8 +158,9 @@ class LiteralReader:
 
         exc_metrics = []
         inc_metrics = []
-        for key in self.graph_dict[i]["metrics"].keys():
-            if key == "_hatchet_nid":
+        # not every node has to have the same metrics
+        for key in dict.fromkeys(k for node_dict in node_dicts for k in node_dict):
+            if key in ("node", "name", "_hatchet_nid"):
                 continue
             if "(inc)" in key:
                 inc_metrics.append(key)
-- 
2.43.0


From b2863c000a08758f0e9e3e653892ec4af308a7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:10 +0000
Subject: [PATCH 54/60] fix: cprofile reader keeps functions of equally named
 files apart

---
 hatchet/readers/cprofile_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/readers/cprofile_reader.py b/hatchet/readers/cprofile_reader.py
index 3b3f5ca..b19ba41 100644
--- a/hatchet/readers/cprofile_reader.py
+++ b/hatchet/readers/cprofile_reader.py
@@ -58,7 +58,7 @@ class CProfileReader:
         """
         u_fn_name = "{}:{}:{}".format(
             fn_name,
-            fn_data[NameData.FILE].split("/")[-1],
+            fn_data[NameData.FILE],
             fn_data[NameData.LINE],
         )
         fn_hnode = self.name_to_hnode.get(u_fn_name)
-- 
2.43.0


From a80076a9e99318b2eda9a6f9cd76b01716370bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:36 +0000
Subject: [PATCH 55/60] fix: time series list every metric once

---
 hatchet/readers/caliper_native_reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index dc847ad..d0557ed 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -84,7 +84,10 @@ class CaliperNativeReader:
     def _create_metric_df(self, metrics):
         """Make a list of metric columns and create a dataframe, group by node"""
         for col in self.record_data_cols:
-            if self.filename_or_caliperreader.attribute(col).is_value():
+            if (
+                self.filename_or_caliperreader.attribute(col).is_value()
+                and col not in self.metric_cols
+            ):
                 self.metric_cols.append(col)
         df_metrics = pd.DataFrame.from_dict(data=metrics)
         df_new = df_metrics.groupby(df_metrics["nid"]).aggregate("first").reset_index()
-- 
2.43.0


From 9ce2d011cb528c08b0eecf3624c3fb1fdb3980bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:50 +0000
Subject: [PATCH 56/60] fix: native Caliper reader records roots once

---
 hatchet/readers/caliper_native_reader.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index d0557ed..77f2007 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -218,17 +218,8 @@ class CaliperNativeReader:
 
                 # if root node, end recursive call to create parent nodes
                 if not parent_callpath:
+                    # the root itself is recorded where it is created
                     list_roots.append(child_node)
-
-                    node_dict = dict(
-                        {
-                            "name": child_node.frame["name"],
-                            "node": child_node,
-                            "nid": self.global_nid,
-                        }
-                    )
-
-                    self.idx_to_node[self.global_nid] = node_dict
                     self.global_nid += 1
                 else:
                     grandparent_callpath = parent_callpath[:-1]
-- 
2.43.0


From 8e5ed1adfd79a180def11ff82ba32d7c403576c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:15 +0000
Subject: [PATCH 57/60] fix: native Caliper reader picks a default metric that
 exists

---
 hatchet/readers/caliper_native_reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index 77f2007..955d466 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -533,7 +533,9 @@ class CaliperNativeReader:
             # set the default metric
             if self.default_metric is None:
                 if "time (inc)" in dataframe.columns:
-                    self.default_metric = "time"
+                    self.default_metric = (
+                        "time" if "time" in dataframe.columns else "time (inc)"
+                    )
                 elif "avg#inclusive#sum#time.duration" in dataframe.columns:
                     self.default_metric = "avg#inclusive#sum#time.duration"
                 elif len(inc_metrics) > 0:
-- 
2.43.0


From 12f5afd8015a812c864bbe36be18437fe795c543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:36 +0000
Subject: [PATCH 58/60] fix: TAU reader picks a default metric that exists

---
 hatchet/readers/tau_reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hatchet/readers/tau_reader.py b/hatchet/readers/tau_reader.py
index 709adc2..81a205b 100644
--- a/hatchet/readers/tau_reader.py
+++ b/hatchet/readers/tau_reader.py
@@ -503,6 +503,9 @@ class TAUReader:
             dataframe = dataframe.stack()
 
         default_metric = "time (inc)"
+        if default_metric not in self.inc_metrics:
+            # the profile has other metrics (PAPI counters, for example)
+            default_metric = self.inc_metrics[0]
 
         return hatchet.graphframe.GraphFrame(
             graph, dataframe, self.exc_metrics, self.inc_metrics, default_metric
-- 
2.43.0


From 2137cabb304cadab1c7766400f97cd983d250ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:07 +0000
Subject: [PATCH 59/60] fix: groupby_aggregate() by or of the name column (or a
 function of the index)

---
 hatchet/graphframe.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 23bbff2..da984c0 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1479,16 +1479,14 @@ class GraphFrame:
         for root in self.graph.roots:
             reindex(root, None, visited)
 
-        # append super nodes to groupby-aggregate dataframe
-        df_index = list(agg_df.index.names)
-        agg_df.reset_index(inplace=True)
+        # append super nodes to groupby-aggregate dataframe, their columns replace
+        # columns of the same name (e.g., when grouping by or aggregating names)
+        agg_df.reset_index(drop=True, inplace=True)
         df_nodes = pd.DataFrame.from_dict(data=node_dicts)
+        agg_df = agg_df.drop(columns=df_nodes.columns, errors="ignore")
         tmp_df = pd.concat([agg_df, df_nodes], axis=1)
-        # add node to dataframe index if it doesn't exist
-        if "node" not in df_index:
-            df_index.append("node")
         # reset index
-        tmp_df.set_index(df_index, inplace=True)
+        tmp_df.set_index("node", inplace=True)
 
         # update _hatchet_nid in reindexed graph and groupby-aggregate dataframe
         graph = Graph(new_roots)
-- 
2.43.0


From dbdbe7e4c5abc44c6e85b03b0ad0ccbc07f143ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:41 +0000
Subject: [PATCH 60/60] fix: SpotDB reader reads no runs for an empty list of
 run ids

The documentation says that all runs are read if the list is None; an empty
list (say, no run matched a selection) read every run of the database.
---
 hatchet/readers/spotdb_reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/spotdb_reader.py b/hatchet/readers/spotdb_reader.py
index 2aa0528..64d7c9c 100644
--- a/hatchet/readers/spotdb_reader.py
+++ b/hatchet/readers/spotdb_reader.py
@@ -170,7 +170,9 @@ class SpotDBReader:
         else:
             db = self.db_key
 
-        runs = self.list_of_ids or db.get_all_run_ids()
+        runs = self.list_of_ids
+        if runs is None:
+            runs = db.get_all_run_ids()
 
         regionprofiles = db.get_regionprofiles(runs)
         metadata = db.get_global_data(runs)
-- 
2.43.0

