From 604568254e3e81670a66b1dd58cf0f350158199b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 01/28] fix: route flat cells that circulate within a flat to
 the flat's outlet

Flat resolution could leave cells of a flat pointing at each other (or
unresolved) even though the flat has an outlet, e.g. a one row DEM of
[0, 1, 1, 1, 1, 1].
---
 dany/flow_directions.py | 54 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 53 insertions(+), 1 deletion(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index b43dd91..296b32f 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -1,6 +1,6 @@
 import copy
 import numpy as np
-from collections import defaultdict
+from collections import defaultdict, deque
 from .stream_util import Topology
 
 
@@ -323,6 +323,58 @@ class FlowDirections:
                     for node, (node_to, dist) in flow_trace.items():
                         self._fdir[node] = node_to
 
+        self._route_undrained_flats(slopes)
+
+    def _route_undrained_flats(self, slopes):
+        """
+        Method to route the flat cells that are still unresolved or that
+        circulate within a flat. Beginning at the terminal cells, flat cells
+        that do not drain are connected to a neighboring cell of the same
+        elevation that does drain. Flats without an outlet are not modified.
+
+        Parameters
+        ----------
+        slopes : np.ndarray
+            uniform numpy array of neighboring slopes
+
+        """
+        drained = self._fdir == np.arange(self._fdir.size)
+        flows_in = defaultdict(list)
+        for node in np.where(~drained)[0]:
+            flows_in[self._fdir[node]].append(node)
+
+        # map the flow paths that lead to a terminal cell
+        stack = list(np.where(drained)[0])
+        while stack:
+            nodes = flows_in[stack.pop()]
+            drained[nodes] = True
+            stack.extend(nodes)
+
+        # map potential connections from flat cells to their neighbors
+        flat_conns = defaultdict(list)
+        for node in np.where(~drained)[0]:
+            min_slope = np.nanmin(slopes[node])
+            if min_slope == 0 or (min_slope < 0 and self._fdir[node] == -2):
+                idxs = np.where(slopes[node] == min_slope)[0]
+                for conn in self._fneighbors[node, idxs]:
+                    flat_conns[conn].append(node)
+
+        queue = deque(np.where(drained)[0])
+        while queue:
+            conn = queue.popleft()
+            for node in flat_conns[conn]:
+                if drained[node]:
+                    continue
+                self._fdir[node] = conn
+                drained[node] = True
+                stack.append(node)
+                while stack:
+                    node = stack.pop()
+                    queue.append(node)
+                    nodes = [n for n in flows_in[node] if not drained[n]]
+                    drained[nodes] = True
+                    stack.extend(nodes)
+
     def _resolve_flats(self, cell, flow_to, dest):
         """
 
-- 
2.43.0


From 807470d07e0c63e386869acd331d2f1fb637b911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 02/28] fix: do not wrap unresolved flow directions (-2) onto
 other cells

Unresolved cells were used as negative array indices, so their area, their
upslope cells and their cascades were credited to the second to last cell.
A valid cell enclosed by nan cells was given an out of range flow direction.
---
 dany/flow_directions.py | 36 ++++++++++++++++++++++++++++++------
 dany/stream_util.py     |  4 +++-
 2 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 296b32f..0aefdd6 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -197,6 +197,10 @@ class FlowDirections:
                 continue
 
             flow_to = fcells[ix]
+            if np.all(self._fneighbors[ix, flow_to] == self._fillidx):
+                # all neighbors are nan, there is nowhere for flow to go
+                self._fdir[ix] = -2
+                continue
 
             continuous = False
             if len(flow_to) > 1:
@@ -414,6 +418,9 @@ class FlowDirections:
             max_nidp = np.max(self.get_nidp())
             self._fdir_r = np.full((max_nidp, self._fdir.size), -1, dtype=int)
             for ix, fdir in enumerate(self._fdir):
+                if fdir < 0:
+                    # unresolved cell
+                    continue
                 for jx in range(max_nidp):
                     if self._fdir_r[jx, fdir] == -1:
                         self._fdir_r[jx, fdir] = ix
@@ -432,7 +439,8 @@ class FlowDirections:
         nidp_array = np.zeros(self._fdir.size, dtype=int)
 
         for cell in self._fdir:
-            nidp_array[cell] += 1
+            if cell >= 0:
+                nidp_array[cell] += 1
 
         return nidp_array
 
@@ -517,6 +525,9 @@ class FlowDirections:
                     nidp_array[n] -= 1
                     break
                 n = self._fdir[n]
+                if n < 0:
+                    # unresolved cell, flow does not leave the cell
+                    break
 
         if as_cells:
             self._facc = flow_acc
@@ -643,8 +654,8 @@ class FlowDirections:
             visited = []
             current = cellid
             while True:
-                if cellid in visited:
-                    # basin outlet condition 1 circular fdir
+                if cellid < 0 or cellid in visited:
+                    # basin outlet condition 1 circular or unresolved fdir
                     graph[current] = -1
                     break
                 elif cellid not in cellids or cellid == current:
@@ -675,6 +686,19 @@ class FlowDirections:
             )
         return subbasins
 
+    def _get_routed_fdir(self):
+        """
+        Method to get flow directions with unresolved cells (-2) set as
+        terminal cells
+
+        Returns
+        -------
+            np.ndarray
+        """
+        return np.where(
+            self._fdir < 0, np.arange(self._fdir.size), self._fdir
+        )
+
     def _get_shared_vertex(self, iverts0, iverts1, verts):
         """
         Method to get the shared vertex location of a neighboring cell
@@ -701,7 +725,7 @@ class FlowDirections:
         -------
             hru_len : np.ndarray
         """
-        fdir = self.flow_direction_array.ravel()
+        fdir = self._get_routed_fdir()
         verts = self._modelgrid.verts
         iverts = self._modelgrid.iverts
         hru_len = []
@@ -748,7 +772,7 @@ class FlowDirections:
         slopes : np.ndarray
             slope of the cell's drainage path
         """
-        fdir = self.flow_direction_array.ravel()
+        fdir = self._get_routed_fdir()
         dem = self._dem[:-1]
 
         x0, y0 = self._xcenters[:-1], self._ycenters[:-1]
@@ -774,7 +798,7 @@ class FlowDirections:
             aspect of the cell's drainage path
 
         """
-        fdir = self.flow_direction_array.ravel()
+        fdir = self._get_routed_fdir()
         xc, yc = self._xcenters[:-1], self._ycenters[:-1]
         xp = xc[fdir] - xc
         yp = yc[fdir] - yc
diff --git a/dany/stream_util.py b/dany/stream_util.py
index c4ccb2e..354845d 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -144,7 +144,7 @@ class StreamBase:
         for node in strm_nodes:
             rchid = stream_array[node]
             flow_to = self._fdir[node]
-            rchto = stream_array[flow_to]
+            rchto = stream_array[flow_to] if flow_to >= 0 else 0
             topo.add_connection(rchid, rchto)
 
         rchid_mapper = {rchid: ix + 1 for ix, rchid in enumerate(topo.sort())}
@@ -1225,6 +1225,7 @@ class PrmsStreams(StreamBase):
         )
         """
         fdir = self._fdir.copy().ravel()
+        fdir = np.where(fdir < 0, np.arange(fdir.size), fdir)
         if basin_boundary is not None:
             fdir[basin_boundary.ravel() == 0] = -9
 
@@ -1285,6 +1286,7 @@ class PrmsStreams(StreamBase):
 
         """
         fdir = self._fdir.copy().ravel()
+        fdir = np.where(fdir < 0, np.arange(fdir.size), fdir)
         if basin_boundary is not None:
             fdir[basin_boundary.ravel() == 0] = -9
 
-- 
2.43.0


From ad774a477abbfb71ab8b641fbc67c8695cd8f61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 03/28] fix: support UnstructuredGrid in flow directions and
 stream segments

The ncpl attribute of an UnstructuredGrid is an array and its shape has a
single dimension, flow_directions() and the segment connectivity raised.
---
 dany/flow_directions.py | 2 +-
 dany/stream_util.py     | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 0aefdd6..87b7e4e 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -60,7 +60,7 @@ class FlowDirections:
         self._fdir_r = None
         self._facc = None
         self._fillval = self._dem[-1]
-        self._fillidx = self._modelgrid.ncpl
+        self._fillidx = self._dem.size - 1
         self._threshold = 1e-6
 
     @property
diff --git a/dany/stream_util.py b/dany/stream_util.py
index 354845d..d108af7 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -303,9 +303,7 @@ class StreamBase:
             )[0]
             seg_array[idx] = new_seg
 
-        self._stream_array = seg_array.reshape(
-            tuple(self._modelgrid.shape[1:])
-        )
+        self._stream_array = seg_array.reshape(self._shape)
         self._graph = graph
         self._seg_graph = seg_graph
         self._node_seg_rch = np.array(nd_seg_rch)
-- 
2.43.0


From bef34f1f3a8f31551c20bc4580c12385883b4058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 04/28] fix: discard the reversed flow directions when
 flow_directions() is rerun

get_watershed_boundary() and get_subbasins() used the stale array.
---
 dany/flow_directions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 87b7e4e..e3e06c7 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -467,6 +467,7 @@ class FlowDirections:
         """
         self._threshold = burn_threshold
         self._fdir = np.full(self._dem.size - 1, -1)
+        self._fdir_r = None
         self._fdir[self._min_cell] = self._min_cell
         if terminal_cells:
             if isinstance(terminal_cells[0], (list, tuple)):
-- 
2.43.0


From 3be023ba2518676f922776b5d45fabe9f6207e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 05/28] fix: allow a subbasin outlet in cell 0

get_subbasins() raised ValueError if another outlet drains to cell 0 and
dropped the outlet otherwise, because Topology reserves zero.
---
 dany/flow_directions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index e3e06c7..82941cd 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -673,10 +673,13 @@ class FlowDirections:
 
         topo = Topology()
         for cellid, cellid_to in graph.items():
-            topo.add_connection(cellid, cellid_to)
+            # zero is reserved by Topology for outlets, use one based numbers
+            if cellid_to != -1:
+                cellid_to += 1
+            topo.add_connection(cellid + 1, cellid_to)
 
         topo.add_connection(-1, -1)
-        solution_order = topo.sort()[:-1]
+        solution_order = [cellid - 1 for cellid in topo.sort()[:-1]]
         solution_idxs = [cellids.index(cellid) for cellid in solution_order]
 
         subbasins = np.zeros(self._fdir.shape, dtype=int)
-- 
2.43.0


From 1a35610ad28d508ed92a2a518a98540965f1b461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 06/28] fix: sort stream networks with long flow paths

The recursive sort raised RecursionError on paths of about 1000 reaches.
---
 dany/stream_util.py | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index d108af7..8548055 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1433,8 +1433,9 @@ class Topology(object):
 
     def _sort_util(self, seg, visited, stack):
         """
-        Recursive function used by topological
-        sort to perform sorting
+        Function used by topological sort to perform sorting. Follows
+        the downstream path of a segment until it gets to a segment that
+        has already been sorted
 
         Parameters
         ----------
@@ -1446,21 +1447,18 @@ class Topology(object):
             stack of sorted segment numbers
 
         """
-        visited[seg] = True
-        if seg == 0:
-            ioutseg = 0
-        else:
-            ioutseg = self.topology[seg]
-
-        if not visited[ioutseg]:
-            self._sort_util(ioutseg, visited, stack)
-
-        if seg == 0:
-            pass
-        elif ioutseg == 0:
-            stack.append(seg)
-        else:
-            stack.insert(0, seg)
+        path = []
+        while not visited[seg]:
+            visited[seg] = True
+            if seg != 0:
+                path.append(seg)
+                seg = self.topology[seg]
+
+        for seg in reversed(path):
+            if self.topology[seg] == 0:
+                stack.append(seg)
+            else:
+                stack.insert(0, seg)
 
     def sort(self):
         """
-- 
2.43.0


From cd706c6a3d256e4b0fac5c5dff1d7d643b9b5986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 07/28] fix: fill integer and single precision DEMs in double
 precision

The epsilon of the priority flood was truncated by the dtype of the DEM, so
the filled DEM had undrained flats.
---
 dany/dem_conditioning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dany/dem_conditioning.py b/dany/dem_conditioning.py
index ce8e814..5fb987e 100644
--- a/dany/dem_conditioning.py
+++ b/dany/dem_conditioning.py
@@ -171,7 +171,8 @@ def _priority_flood(modelgrid, dem, eps=2e-06, seed=0, streams=False):
 
     """
     import heapq
-    newdem = dem.ravel().copy()
+    # eps is lost in integer and single precision arrays
+    newdem = dem.ravel().astype(float)
 
     if isinstance(seed, int):
         seed = [seed]
-- 
2.43.0


From d4951db46c0adc63cba19a4a126d44968a3e76e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 08/28] fix: fill_nan_values does not return when a nan cell
 has only nan neighbors

The cell was pushed back to the end of the stack that it is popped from.
---
 dany/dem_conditioning.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dany/dem_conditioning.py b/dany/dem_conditioning.py
index 5fb987e..f94b26e 100644
--- a/dany/dem_conditioning.py
+++ b/dany/dem_conditioning.py
@@ -284,10 +284,12 @@ def fill_nan_values(modelgrid, dem, method="mean"):
     """
     filled_dem = np.ravel(dem).copy()
     stack = list(np.where(np.isnan(filled_dem))[0])
+    nskipped = 0
     neighbors = modelgrid.neighbors(as_nodes=True, method="queen")
     method = method.lower()
 
-    while stack:
+    # stop when there are not any cells left that have a valid neighbor
+    while stack and nskipped < len(stack):
         node = stack.pop()
         nn = neighbors[node]
         elevs = filled_dem[nn]
@@ -303,8 +305,11 @@ def fill_nan_values(modelgrid, dem, method="mean"):
             raise NotImplementedError(f"{method} has not been implemented")
 
         if np.isnan(elev):
-            stack.append(node)
+            # come back to this cell after the cells that surround it
+            stack.insert(0, node)
+            nskipped += 1
         else:
             filled_dem[node] = elev
+            nskipped = 0
 
     return filled_dem.reshape(dem.shape)
-- 
2.43.0


From 0f350788d130b504eea0b9c9156e0b791ffb606e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 09/28] fix: always use queen neighbors

FloPy caches the first neighbor calculation of a grid and then ignores the
method argument, so results depended on whether rook neighbors had been
calculated before. StreamBase itself calculated rook neighbors.
---
 dany/dem_conditioning.py | 4 ++--
 dany/flow_directions.py  | 4 +++-
 dany/stream_util.py      | 4 +++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/dany/dem_conditioning.py b/dany/dem_conditioning.py
index f94b26e..a9b4392 100644
--- a/dany/dem_conditioning.py
+++ b/dany/dem_conditioning.py
@@ -184,7 +184,7 @@ def _priority_flood(modelgrid, dem, eps=2e-06, seed=0, streams=False):
 
     closed = np.zeros(dem.size, dtype=bool)
     closed[seed] = True
-    neighbors = modelgrid.neighbors(method="queen", as_nodes=True)
+    neighbors = modelgrid.neighbors(method="queen", as_nodes=True, reset=True)
 
     while open or pit:
         if pit:
@@ -285,7 +285,7 @@ def fill_nan_values(modelgrid, dem, method="mean"):
     filled_dem = np.ravel(dem).copy()
     stack = list(np.where(np.isnan(filled_dem))[0])
     nskipped = 0
-    neighbors = modelgrid.neighbors(as_nodes=True, method="queen")
+    neighbors = modelgrid.neighbors(as_nodes=True, method="queen", reset=True)
     method = method.lower()
 
     # stop when there are not any cells left that have a valid neighbor
diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 82941cd..a51820d 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -34,7 +34,9 @@ class FlowDirections:
         else:
             self._shape = self._modelgrid.shape
 
-        self._neighbors = copy.deepcopy(modelgrid.neighbors(method="queen"))
+        self._neighbors = copy.deepcopy(
+            modelgrid.neighbors(method="queen", reset=True)
+        )
         self._area = self._shoelace_area()
         self._fneighbors = None
         # self._dem = dem.ravel()
diff --git a/dany/stream_util.py b/dany/stream_util.py
index 8548055..aaecbfb 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -33,7 +33,9 @@ class StreamBase:
             self._nnodes = self._modelgrid.nnodes
             self._shape = (self._nnodes,)
 
-        self._neighbors = modelgrid.neighbors(as_nodes=False)
+        self._neighbors = modelgrid.neighbors(
+            method="queen", as_nodes=False, reset=True
+        )
         
     @property
     def stream_array(self):
-- 
2.43.0


From b9bcc0acaefcefb16b5b47b27d9edb99067bd0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 10/28] fix: number the reaches of boolean, small integer and
 nan stream arrays

The reach numbers were written into a copy of the user's array, a boolean
array collapsed all reaches into one. nan cells were treated as streams.
---
 dany/stream_util.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index aaecbfb..0bfb728 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -133,13 +133,11 @@ class StreamBase:
                 )
             stream_array = self._stream_array
 
-        stream_array = stream_array.copy().ravel()
-        strm_nodes = np.where(stream_array)[0]
+        strm_nodes = np.where(np.nan_to_num(stream_array.ravel()))[0]
 
         # assign an initial reach number to stream cells
-        for i in range(1, len(strm_nodes) + 1):
-            ix = strm_nodes[i - 1]
-            stream_array[ix] = i
+        stream_array = np.zeros(stream_array.size, dtype=int)
+        stream_array[strm_nodes] = np.arange(1, len(strm_nodes) + 1)
 
         # create a connectivity graph.... via flow directions
         topo = Topology()
@@ -203,8 +201,9 @@ class StreamBase:
             stream_array = self._stream_array
 
         # 1a) create graph of connectivity via node numbers...
-        stream_array = stream_array.copy().ravel()
-        strm_nodes = np.where(stream_array)[0]
+        strm_nodes = np.where(np.nan_to_num(stream_array.ravel()))[0]
+        stream_array = np.zeros(stream_array.size, dtype=int)
+        stream_array[strm_nodes] = 1
 
         graph = {}
         for node in strm_nodes:
@@ -1384,10 +1383,7 @@ class PrmsStreams(StreamBase):
         if many2many:
             casc_flg = 0
 
-        if stream_array is None:
-            stream_array = self.stream_array.ravel()
-
-        nreaches = np.count_nonzero(stream_array)
+        nreaches = np.count_nonzero(self.stream_array)
         nsegments = len(strm_conn)
 
         return PygsflowCascades(
-- 
2.43.0


From 84284877540999a946881a444833dcec0965a258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 11/28] fix: assign a segment to stream cells that only receive
 their own flow

An outlet cell without upstream stream cells, or cells with circular flow,
did not get a segment and their cells were given the number of another one.
---
 dany/stream_util.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 0bfb728..74f2532 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -230,6 +230,17 @@ class StreamBase:
                         segstrts[node] = iseg
                         iseg += 1
 
+            # trap for stream cells that are not downstream of a segment start
+            #  (ex. an outlet cell that does not have upstream stream cells)
+            routed = set()
+            for node in list(segstrts) + nodesup:
+                if node not in routed and node not in segstrts:
+                    segstrts[node] = iseg
+                    iseg += 1
+                while node is not None and node not in routed:
+                    routed.add(node)
+                    node = graph[node]
+
             # node, seg, rch --->??
             # segmap --->?
             nd_seg_rch = []
-- 
2.43.0


From b5b7b6254b06d91b7a75747cddb16ae507bf838c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 12/28] fix: discard stream connectivity when a new stream
 array is set

Packages built after delineate_streams() or set_stream_array() was rerun
combined the new stream array with the connectivity of the old one.
---
 dany/stream_util.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 74f2532..bce9b92 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -75,6 +75,16 @@ class StreamBase:
             )
 
         self._stream_array = stream_array.reshape(self._shape)
+        self._reset_connectivity()
+
+    def _reset_connectivity(self):
+        """
+        Method to discard connectivity from a previous stream array
+
+        """
+        self._graph = None
+        self._seg_graph = None
+        self._node_seg_rch = None
 
     def delineate_streams(self, contrib_area, basin_boundary=None):
         """
@@ -106,6 +116,7 @@ class StreamBase:
             stream_array[basin_boundary.ravel() == 0] = 0
 
         self._stream_array = stream_array.reshape(self._shape)
+        self._reset_connectivity()
         return self._stream_array
 
     def _mf6_stream_connectivity(self, stream_array=None):
-- 
2.43.0


From 95adb34113d3bd8cc3d7ee9f098fa11355939834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 13/28] fix: create_stream_vectors() replaced the stream
 connectivity

Sfr6.connectiondata() returned node numbers and Sfr6.packagedata() raised
after stream vectors were created.
---
 dany/stream_util.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index bce9b92..f83e51c 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -25,7 +25,7 @@ class StreamBase:
         self._facc = facc
         self._shape = shape
         self._stream_array = None
-        self._graph = None
+        self._reset_connectivity()
 
         self._shape = self._modelgrid.shape[1:]
         self._nnodes = self._modelgrid.ncpl
@@ -358,9 +358,13 @@ class StreamBase:
         if stream_array is not None:
             stream_array = stream_array.copy()
             stream_array[np.isnan(stream_array)] = 0
+        # vectors must not replace the connectivity that packages are built on
+        state = self.__dict__.copy()
         seg_graph = self._mf2005_stream_connectivity(
             stream_array, group_segments=group_segments
         )
+        nsr = self._node_seg_rch
+        self.__dict__.update(state)
         # get headwater segs
         headwaters = []
         seg_graph_r = {v: k for k, v in seg_graph.items()}
@@ -371,7 +375,6 @@ class StreamBase:
         vectors = {}
         processed = []
         stack = []
-        nsr = self._node_seg_rch.copy()
         while headwaters or stack:
             if stack:
                 seg = stack.pop(0)
-- 
2.43.0


From 4a7b5ece9ff52a1e6bf511e9f573e3d18d05b9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 14/28] fix: Sfr6.packagedata() with a stream_array argument

Reach numbers were looked up in the binary array that the user provided.
---
 dany/stream_util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index f83e51c..bb9e614 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -594,6 +594,7 @@ class Sfr6(StreamBase):
             stream_array = self.stream_array
         else:
             graph = self._mf6_stream_connectivity(stream_array)
+            stream_array = self.stream_array
 
         stream_array = stream_array.ravel()
         dem_top = self._modelgrid.top.ravel()
-- 
2.43.0


From cd4b664402e849a89ee834927022c13cbfc14d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 15/28] fix: Sfr2005.reach_data() for segments that leave the
 stream network

The column number of the reach was used as segment number, KeyError was
raised if that segment did not have a downstream segment.
---
 dany/stream_util.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index bb9e614..470f751 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -839,12 +839,8 @@ class Sfr2005(StreamBase):
         for ix in range(len(basic_rec)):
             rec = basic_rec[ix]
             if len(rec) < rec_len:
-                iseg = rec[3]
-                if iseg not in self._seg_graph:
-                    downreach = 0
-                else:
-                    outseg = self._seg_graph[iseg]
-                    downreach = seg_rid_lut[outseg]
+                outseg = self._seg_graph[rec[4]]
+                downreach = seg_rid_lut.get(outseg, 0)
                 basic_rec[ix].append(downreach)
 
         nreach = len(basic_rec)
-- 
2.43.0


From 6ec9727fee12be08226ef0fea0bc44aea25106a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 16/28] fix: Sfr2005.irunbnd() assigned upslope cells to
 downstream segments

The upslope traversal did not stop at stream cells of other segments, the
result depended on the order of the cell numbers.
---
 dany/stream_util.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 470f751..bc6b968 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -940,7 +940,9 @@ class Sfr2005(StreamBase):
                 stream_array = self._stream_array
 
         stream_array = stream_array.copy().ravel()
-        stream_cells = np.where((stream_array > 0) & (~np.isnan(stream_array)))[0]
+        stream_cells = set(
+            np.where((stream_array > 0) & (~np.isnan(stream_array)))[0]
+        )
 
         # make a dict of reversed flow directions
         fdir_r = {}
@@ -966,7 +968,9 @@ class Sfr2005(StreamBase):
                 else:
                     visited.append(node)
 
-                upnodes = fdir_r[node]
+                # upslope stream cells and their hillslopes run off to the
+                #  segment of that stream cell
+                upnodes = [n for n in fdir_r[node] if n not in stream_cells]
                 irunbnd[upnodes] = iseg
                 stack.extend(upnodes)
 
-- 
2.43.0


From 10ca8f6dc8c65363520593e183f68828454d1eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 17/28] fix: honor the stream_array argument when connectivity
 already exists

reach_data(), segment_data(), irunbnd() and get_cascades() ignored a stream
array that differs from the one the existing connectivity was built for, or
used the values of a binary array as segment numbers.
---
 dany/stream_util.py | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index bc6b968..f31bfde 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -86,6 +86,27 @@ class StreamBase:
         self._seg_graph = None
         self._node_seg_rch = None
 
+    def _is_current(self, stream_array):
+        """
+        Method to check if the existing connectivity was built for the stream
+        locations of a stream array
+
+        Parameters
+        ----------
+        stream_array : np.ndarray
+            array of stream locations
+
+        Returns
+        -------
+            bool
+        """
+        if self._graph is None:
+            return False
+        return np.array_equal(
+            np.nan_to_num(stream_array).ravel() != 0,
+            np.nan_to_num(self._stream_array).ravel() != 0
+        )
+
     def delineate_streams(self, contrib_area, basin_boundary=None):
         """
         Method to binarize flow accumulation by a contributing area
@@ -775,7 +796,7 @@ class Sfr2005(StreamBase):
                 )
             stream_array = self._stream_array
 
-        if self._seg_graph is None:
+        if not self._is_current(stream_array):
             group_segments = kwargs.pop("group_segments", True)
             self._mf2005_stream_connectivity(
                 stream_array, group_segments=group_segments
@@ -887,7 +908,7 @@ class Sfr2005(StreamBase):
                 )
             stream_array = self._stream_array
 
-        if self._seg_graph is None:
+        if not self._is_current(stream_array):
             group_segments = kwargs.pop("group_segments", True)
             self._mf2005_stream_connectivity(
                 stream_array, group_segments=group_segments
@@ -931,13 +952,13 @@ class Sfr2005(StreamBase):
             stream_array = self._stream_array
 
         if segment_graph is None:
-            if self._seg_graph is None:
+            if not self._is_current(stream_array):
                 group_segments = kwargs.pop("group_segments", True)
-                segment_graph = self.get_stream_connectivity(
+                self.get_stream_connectivity(
                     stream_array=stream_array,
                     group_segments=group_segments
                 )
-                stream_array = self._stream_array
+            stream_array = self._stream_array
 
         stream_array = stream_array.copy().ravel()
         stream_cells = set(
@@ -1191,12 +1212,11 @@ class PrmsStreams(StreamBase):
         if stream_array is None:
             stream_array = self.stream_array
 
-        if self._graph is None:
+        if not self._is_current(stream_array):
             group_segments = kwargs.pop("group_segments", False)
             self.get_stream_connectivity(stream_array, group_segments)
-            stream_array = self.stream_array
 
-        stream_array = stream_array.copy().ravel()
+        stream_array = self.stream_array.ravel()
 
         if not many2many:
             hru_up_id, hru_down_id, hru_pct_up = \
-- 
2.43.0


From 3e89c6650a4c1b7b4739c94278169af2575242cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 18/28] fix: reach slopes and keyword arguments of the Sfr2005
 pyGSFLOW object

outreach is not set in the reach data, therefore all slopes were calculated
between the reach and the last reach of the network. Any keyword argument
raised ValueError.
---
 dany/stream_util.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index f31bfde..578b0b8 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1052,7 +1052,7 @@ class Sfr2005(StreamBase):
             }
         }
         group_segments = kwargs.pop("group_segments", True)
-        for k, v in kwargs:
+        for k, v in kwargs.items():
             if k in defaults["reach"]:
                 defaults["reach"][k] = v
             elif k in defaults["segment"]:
@@ -1079,13 +1079,18 @@ class Sfr2005(StreamBase):
             xcenters = self._modelgrid.xcellcenters.ravel()
             ycenters = self._modelgrid.ycellcenters.ravel()
             dem = self._modelgrid.top.ravel()
+            outsegs = dict(zip(segment_data["nseg"], segment_data["outseg"]))
+            reach_nodes = {
+                (rec["iseg"], rec["ireach"]): rec["node"] for rec in reach_data
+            }
             for ix, rec in enumerate(reach_data):
                 node = rec["node"]
-                rec_dn_ix = rec["outreach"] - 1
-                if rec_dn_ix >= len(reach_data):
-                    node_dn = rec["node"]
-                else:
-                    node_dn = reach_data[rec_dn_ix]["node"]
+                # downstream reach is the next reach of the segment or the
+                #  first reach of the downstream segment
+                node_dn = reach_nodes.get(
+                    (rec["iseg"], rec["ireach"] + 1),
+                    reach_nodes.get((outsegs.get(rec["iseg"], 0), 1), node)
+                )
 
                 strtop = dem[node]
                 strtop_dn = dem[node_dn]
-- 
2.43.0


From ff1278eee883d19576850098fb6badb9cbd1128f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 19/28] fix: cascades no longer leave the basin boundary

Many to one cascades connected a cell outside of the boundary to itself in
place of the outlet cell. Many to many cascades dropped the links to cells
that flow to cell 0 instead of the links to cells outside of the boundary.
---
 dany/stream_util.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 578b0b8..924f9b7 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1292,10 +1292,11 @@ class PrmsStreams(StreamBase):
 
             if fdir[hru_down] == -9:
                 # trap for outlets, need to set hru_up and hru_dn to same val
-                idxs = [hru_down]
-
-            hru_up = list(idxs)
-            hru_down = [hru_down,] * len(hru_up)
+                hru_up = list(idxs)
+                hru_down = list(idxs)
+            else:
+                hru_up = list(idxs)
+                hru_down = [hru_down,] * len(hru_up)
             hru_pct = [1.0,] * len(hru_up)
 
             hru_up_id.extend(hru_up)
@@ -1373,7 +1374,7 @@ class PrmsStreams(StreamBase):
                 #  links that point out of the active model extent based
                 #  on slope
                 flow_to = np.array(flow_to)
-                keep_idx = [ix for ix, conn in enumerate(conns) if fdir[conn] != 0]
+                keep_idx = [ix for ix, conn in enumerate(conns) if fdir[conn] != -9]
                 flow_to = list(flow_to[keep_idx])
                 conns = conns[keep_idx]
 
-- 
2.43.0


From bd7d607882aaa748930452fb07e8bb0ca8dd38b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 20/28] fix: many to many cascades of flat cells

Landscape cells that do not have a downslope neighbor were left without a
cascade, water from these cells and from their upslope cells was lost.
---
 dany/stream_util.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 924f9b7..1e281e2 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1388,6 +1388,15 @@ class PrmsStreams(StreamBase):
                 hru_pcts = np.abs(dn_slopes) / np.sum(np.abs(dn_slopes))
                 hru_downs = conns[keep_idx]
 
+                # cells without downslope links (flats and outlets) follow
+                #  the flow direction
+                if len(hru_pcts) == 0:
+                    hru_pcts = [1.0]
+                    if fdir[hru_down] == -9:
+                        hru_downs = [node]
+                    else:
+                        hru_downs = [hru_down]
+
                 hru_up_id.extend([node, ] * len(hru_pcts))
                 hru_down_id.extend(list(hru_downs))
                 hru_pct_up.extend(hru_pcts)
-- 
2.43.0


From 456153357eb8d4201b2aba7e819bd8795e04b1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 21/28] fix: threshold_from_control_points() does not return
 for circular flow

Cells at an undrained sink can flow to each other.
---
 dany/stream_util.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 1e281e2..f8ae3e6 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -479,8 +479,13 @@ class StreamBase:
         array = np.full(self._facc.shape, threshold).ravel()
         for node in cellids:
             stack = [node]
+            visited = set()
             while stack:
                 node = stack.pop(0)
+                if node in visited:
+                    # circular flow
+                    break
+                visited.add(node)
                 neighs = self._neighbors[node]
                 array[node] = self._facc[node] - 5
                 flows_in = []
-- 
2.43.0


From b8039c6bdf9a806bd16018796ebee8cd16d6691a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:07 +0000
Subject: [PATCH 22/28] fix: get_subbasins() accepts the documented lists of
 geometry objects

---
 dany/flow_directions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index a51820d..b9a395f 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -634,7 +634,10 @@ class FlowDirections:
         """
         from flopy.utils.geospatial_utils import GeoSpatialCollection
 
-        if isinstance(points, (tuple, list, np.ndarray)):
+        vertices = (tuple, list, np.ndarray)
+        if isinstance(points, vertices) and all(
+            isinstance(point, vertices) for point in points
+        ):
             for point in points:
                 if len(point) != 2:
                     raise AssertionError(
-- 
2.43.0


From 523fd571707b1811130b5fc25b2e25cd3f73a3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 23/28] fix: routing of flats replaced outlet and terminal
 cells

---
 dany/flow_directions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index b9a395f..966f547 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -190,6 +190,7 @@ class FlowDirections:
         fcells = [
             list(np.where(slope == np.nanmin(slope))[0]) for slope in slopes
         ]
+        terminal = np.where(self._fdir == np.arange(self._fdir.size))[0]
         for ix, node in enumerate(self._fdir):
             if node != -1:
                 continue
@@ -329,6 +330,8 @@ class FlowDirections:
                     for node, (node_to, dist) in flow_trace.items():
                         self._fdir[node] = node_to
 
+        # terminal cells are fixed, flat routing must not replace them
+        self._fdir[terminal] = terminal
         self._route_undrained_flats(slopes)
 
     def _route_undrained_flats(self, slopes):
-- 
2.43.0


From 96c76d589cc0aa885d6efce49cdd791550d0b184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:55 +0000
Subject: [PATCH 24/28] fix: hru_len counts the closing vertex of a closed cell
 polygon once

---
 dany/flow_directions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 966f547..0b806e9 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -719,7 +719,8 @@ class FlowDirections:
             [x, y] coordinate pair
         """
         shared = []
-        for iv in iverts0:
+        # closed polygons repeat their first vertex
+        for iv in dict.fromkeys(iverts0):
             if iv in iverts1:
                 shared.append(verts[iv])
 
-- 
2.43.0


From 1d57cc653aa428c2973a9d4e79cbfac738bc4c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:07 +0000
Subject: [PATCH 25/28] fix: stream builders that share a grid used the
 elevations of the last DEM

---
 dany/stream_util.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index f8ae3e6..a88934f 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -522,6 +522,8 @@ class Sfr6(StreamBase):
         if faobj is not None:
             # ensure the modelgrid top is consistent with the DEM
             modelgrid._top = faobj.dem.copy()
+            # other objects that share the grid can replace its top
+            self._dem = faobj.dem.copy()
             super().__init__(modelgrid, faobj._fdir, faobj._facc, faobj._shape)
             self._slope = faobj.slope.ravel()
 
@@ -623,7 +625,7 @@ class Sfr6(StreamBase):
             stream_array = self.stream_array
 
         stream_array = stream_array.ravel()
-        dem_top = self._modelgrid.top.ravel()
+        dem_top = self._dem.ravel()
         xcenters = self._modelgrid.xcellcenters.ravel()
         ycenters = self._modelgrid.ycellcenters.ravel()
         connection_data = self.connectiondata(graph)
@@ -740,6 +742,8 @@ class Sfr2005(StreamBase):
         if faobj is not None:
             # ensure the modelgrid top is consistent with the DEM
             modelgrid._top = faobj.dem.copy()
+            # other objects that share the grid can replace its top
+            self._dem = faobj.dem.copy()
             super().__init__(modelgrid, faobj._fdir, faobj._facc, faobj._shape)
 
         self._node_seg_rch = None
@@ -810,7 +814,7 @@ class Sfr2005(StreamBase):
         basic_rec = []
         xcenters = self._modelgrid.xcellcenters
         ycenters = self._modelgrid.ycellcenters
-        dem = self._modelgrid.top
+        dem = self._dem
         reachid = 1
         seg_rid_lut = {}
         for iseg, outseg in sorted(self._seg_graph.items()):
@@ -1083,7 +1087,7 @@ class Sfr2005(StreamBase):
             # Set reach data defaults
             xcenters = self._modelgrid.xcellcenters.ravel()
             ycenters = self._modelgrid.ycellcenters.ravel()
-            dem = self._modelgrid.top.ravel()
+            dem = self._dem.ravel()
             outsegs = dict(zip(segment_data["nseg"], segment_data["outseg"]))
             reach_nodes = {
                 (rec["iseg"], rec["ireach"]): rec["node"] for rec in reach_data
-- 
2.43.0


From 4c038fb7b67e78a994ee4b7a25c34ca9b1b50376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:16 +0000
Subject: [PATCH 26/28] fix: refused terminal cells discarded the existing flow
 directions

---
 dany/flow_directions.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 0b806e9..16fb6f7 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -470,10 +470,8 @@ class FlowDirections:
             numpy array of cell numbers that each individual cell flows to
 
         """
-        self._threshold = burn_threshold
-        self._fdir = np.full(self._dem.size - 1, -1)
-        self._fdir_r = None
-        self._fdir[self._min_cell] = self._min_cell
+        fdir = np.full(self._dem.size - 1, -1)
+        fdir[self._min_cell] = self._min_cell
         if terminal_cells:
             if isinstance(terminal_cells[0], (list, tuple)):
                 if self._modelgrid.grid_type == "structured":
@@ -486,8 +484,12 @@ class FlowDirections:
                 nodes = terminal_cells
 
             for tc in nodes:
-                self._fdir[tc] = tc
+                fdir[tc] = tc
 
+        # an invalid terminal cell does not discard the existing directions
+        self._threshold = burn_threshold
+        self._fdir = fdir
+        self._fdir_r = None
         self._fill_irregular_neighbor_array()
         slopes = self._calculate_slopes()
         self._calculate_flowcell(slopes)
-- 
2.43.0


From 8ba06b87b09ccddcfa383164f891123c40989511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:21 +0000
Subject: [PATCH 27/28] fix: fill_nan_values by min or max failed on a nan cell
 without neighbors

numpy.nanmin and nanmax reject an empty array; such a cell can't be filled and
stays nan, as it does with the other methods.
---
 dany/dem_conditioning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dany/dem_conditioning.py b/dany/dem_conditioning.py
index a9b4392..69e115c 100644
--- a/dany/dem_conditioning.py
+++ b/dany/dem_conditioning.py
@@ -292,7 +292,8 @@ def fill_nan_values(modelgrid, dem, method="mean"):
     while stack and nskipped < len(stack):
         node = stack.pop()
         nn = neighbors[node]
-        elevs = filled_dem[nn]
+        # nan stands for the neighbors of a cell that does not have any
+        elevs = filled_dem[nn] if len(nn) > 0 else np.array([np.nan])
         if method == "mean":
             elev = np.nanmean(elevs)
         elif method == "median":
-- 
2.43.0


From f67524c3f1b027626cc941b75debb73a5f60ee62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:58 +0000
Subject: [PATCH 28/28] fix: keep the tables passed to
 Sfr2005.get_pygsflow_builder_object

---
 dany/stream_util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index a88934f..36800f1 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1081,6 +1081,9 @@ class Sfr2005(StreamBase):
             irunbnd = self.irunbnd(group_segments=group_segments)
 
         if apply_defaults:
+            # defaults must not be written to the tables that were passed in
+            reach_data = reach_data.copy()
+            segment_data = segment_data.copy()
             pgs_defaults = defaults["pgs_defaults"]
             reach_defaults = defaults["reach"]
 
-- 
2.43.0

