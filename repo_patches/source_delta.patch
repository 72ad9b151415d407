From dfa3d86669bfb8fb6a640ca653a51e8d0dff389e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:48 +0000
Subject: [PATCH 01/61] fix: sliced nodes show the links that end at the given
 node and layers

net[i,j,s,:] and net[i,:,s,r] filtered the neighbours of (i,s) by i and s
instead of by j and r.
---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 4ce6b5e..4629f9f 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -495,7 +495,7 @@ class MultilayerNetwork(object):
             layers=[]
             for i in range(d):
                 if item[2*i+1]!=COLON:
-                    layers.append(item[2*i])
+                    layers.append(item[2*i+1])
                 else:
                     colons+=1
                     layers.append(None)
-- 
2.43.0


From 5763ca384b93a62130c38b13f8cd110144bc1f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:48 +0000
Subject: [PATCH 02/61] fix: removing a directed edge lowers the total degree
 of its target

The check for a reciprocal edge looked at the edge being removed, so the
total degree of the target node was never decremented.
---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 4629f9f..3638bd8 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -275,7 +275,7 @@ class MultilayerNetwork(object):
                         else:
                             if node1 not in self._rnet or node2 not in self._rnet[node1]:
                                 self._totalDegree[node1]=self._totalDegree[node1]-1
-                            if node2 not in self._rnet or node1 not in self._rnet[node2]:
+                            if node2 not in self._net or node1 not in self._net[node2]:
                                 self._totalDegree[node2]=self._totalDegree[node2]-1
                         del self._rnet[node2][node1]
                     else:
-- 
2.43.0


From a49cd372075dbd0cbaba868a7924a9d9fe17d39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:48 +0000
Subject: [PATCH 03/61] fix: self-edges of undirected networks can be removed

The same dictionary entry was deleted twice, which raised a KeyError.
---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 3638bd8..019190a 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -278,7 +278,7 @@ class MultilayerNetwork(object):
                             if node2 not in self._net or node1 not in self._net[node2]:
                                 self._totalDegree[node2]=self._totalDegree[node2]-1
                         del self._rnet[node2][node1]
-                    else:
+                    elif node1!=node2:
                         del self._net[node2][node1]
                     del self._net[node1][node2]
         else:
-- 
2.43.0


From 33faeae296d9de9f4f483ee737be462729897c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 04/61] fix: multiplex networks without couplings answer
 inter-layer lookups

Looking up an inter-layer edge raised 'Coupling not implemented', and the
strength of a node raised an IndexError when couplings were given as None.
---
 pymnet/net.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 019190a..8780559 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1042,6 +1042,8 @@ class MultiplexNetwork(MultilayerNetwork):
                         return coupling[1]
                     else:
                         return self.noEdge
+                elif coupling[0]=="none":
+                    return self.noEdge
                 elif isinstance(coupling[0],MultilayerNetwork):
                     return self.couplings[d[0]-1][0][link[2*d[0]],link[2*d[0]+1]]
                 else:
@@ -1103,8 +1105,10 @@ class MultiplexNetwork(MultilayerNetwork):
             raise Exception("Coupling '"+str(coupling_type)+"' not implemented.")
 
     def _get_dim_strength(self,node,aspect,direction="tot"):
-        coupling_str=self.couplings[aspect-1][1]
         coupling_type=self.couplings[aspect-1][0]
+        if coupling_type=="none":
+            return 0
+        coupling_str=self.couplings[aspect-1][1]
         if isinstance(coupling_type,MultilayerNetwork):
             raise Exception() #please implement this
         return self._get_dim_degree(node,aspect,direction=direction)*coupling_str
-- 
2.43.0


From d42ab101575cba932a6ff444d2b961275f695fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 05/61] fix: intra-layer networks use the noEdge value of the
 multiplex network

A missing intra-layer edge was reported as 0, and writing noEdge created an
edge, whenever noEdge was not 0.
---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 8780559..c8a9a0d 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -846,7 +846,7 @@ class MultiplexIntraNetDict(MutableMapping):
         pass
 
     def _add_empty_network(self,layer):
-        net=MultilayerNetworkWithParent(aspects=0,directed=self._net.directed)
+        net=MultilayerNetworkWithParent(aspects=0,noEdge=self._net.noEdge,directed=self._net.directed)
         net._set_parent(self._net)
         if not self._net.fullyInterconnected:
             if self._net.aspects==1:
-- 
2.43.0


From f3610e01f7fcd53a7de727054522c71eebebe63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 06/61] fix: coupling edges of multiplex networks that are not
 node-aligned

Ordinal couplings were missing from neighbours and degrees, and categorical
couplings with several aspects connected layers differing in other aspects
(and the degree raised a TypeError).
---
 pymnet/net.py | 45 +++++++++++++++++++--------------------------
 1 file changed, 19 insertions(+), 26 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index c8a9a0d..20b21c5 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1069,29 +1069,25 @@ class MultiplexNetwork(MultilayerNetwork):
             raise KeyError("Can only set links in the node dimension.")
 
 
+    def _has_node_layer(self,supernode):
+        """Return true if the node is on the layer. Network must not be node-aligned.
+        """
+        layer=supernode[1] if self.aspects==1 else supernode[1:]
+        return layer in self._nodeToLayers.get(supernode[0],())
+
     def _get_dim_degree(self,supernode,aspect,direction="tot"):
         coupling_type=self.couplings[aspect-1][0]
         if coupling_type=="categorical":
             if self.fullyInterconnected:
                 return len(self.slices[aspect])-1
             else:
-                if self.aspects>1:
-                    layer=supernode[1:]
-                else:
-                    layer=supernode[1]
-                if layer in self._nodeToLayers[supernode[0]]:
-                    if self.aspects==1:
-                        return len(self._nodeToLayers[supernode[0]])-1
-                    else:
-                        return len(filter(lambda x:x[aspect]==supernode[aspect],self._nodeToLayers[supernode[0]])) -1
-                else:
-                    return 0
+                return len(list(self._iter_dim(supernode,aspect,direction=direction)))
         elif coupling_type=="ordinal":
-            up,down=supernode[aspect]+1,supernode[aspect]-1
             if self.fullyInterconnected:
+                up,down=supernode[aspect]+1,supernode[aspect]-1
                 return int(up in self.slices[aspect])+int(down in self.slices[aspect])
             else:
-                return int(supernode[:aspect]+(up,)+supernode[aspect+1:] in self._nodeToLayers[supernode[0]])+int(supernode[:aspect]+(down,)+supernode[aspect+1:] in self._nodeToLayers[supernode[0]])
+                return len(list(self._iter_dim(supernode,aspect,direction=direction)))
         elif isinstance(coupling_type,MultilayerNetwork):
             if direction=="tot":
                 return self.couplings[aspect-1][0][supernode[aspect]].deg_total()
@@ -1121,14 +1117,11 @@ class MultiplexNetwork(MultilayerNetwork):
                 for n in self.slices[aspect]:
                     if n!=supernode[aspect]:                    
                         yield supernode[:aspect]+(n,)+supernode[aspect+1:]
-            elif supernode[0] in self._get_A_with_tuple(supernode[1:]).slices[0]:
-                for layers in self._nodeToLayers[supernode[0]]:
-                    if self.aspects>1:
-                        if layers!=supernode[1:]:
-                            yield (supernode[0],)+layers
-                    else:
-                        if layers!=supernode[1]:
-                            yield (supernode[0],layers)
+            elif self._has_node_layer(supernode):
+                for n in self.slices[aspect]:
+                    neigh=supernode[:aspect]+(n,)+supernode[aspect+1:]
+                    if n!=supernode[aspect] and self._has_node_layer(neigh):
+                        yield neigh
         elif coupling_type=="ordinal":
             up,down=supernode[aspect]+1,supernode[aspect]-1
             if self.fullyInterconnected:
@@ -1136,11 +1129,11 @@ class MultiplexNetwork(MultilayerNetwork):
                     yield supernode[:aspect]+(up,)+supernode[aspect+1:]
                 if down in self.slices[aspect]:
                     yield supernode[:aspect]+(down,)+supernode[aspect+1:]
-            else:
-                if supernode[1:aspect]+(up,)+supernode[aspect+1:] in self._nodeToLayers[supernode[0]]:
-                    yield supernode[:aspect]+(up,)+supernode[aspect+1:]
-                if supernode[1:aspect]+(down,)+supernode[aspect+1:] in self._nodeToLayers[supernode[0]]:
-                    yield supernode[:aspect]+(down,)+supernode[aspect+1:]
+            elif self._has_node_layer(supernode):
+                for n in (up,down):
+                    neigh=supernode[:aspect]+(n,)+supernode[aspect+1:]
+                    if self._has_node_layer(neigh):
+                        yield neigh
         elif coupling_type=="none":
             pass
         else:
-- 
2.43.0


From 71bad766436a6200bbdb51854e1ab5e38a85fa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 07/61] fix: neighbours and strengths through network couplings

Iterating the neighbours of a node (and thus the edges) raised a TypeError
and strengths raised a bare Exception when a coupling was given as a network;
degrees counted layers that are not in the network.
---
 pymnet/net.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 20b21c5..8558395 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1045,7 +1045,8 @@ class MultiplexNetwork(MultilayerNetwork):
                 elif coupling[0]=="none":
                     return self.noEdge
                 elif isinstance(coupling[0],MultilayerNetwork):
-                    return self.couplings[d[0]-1][0][link[2*d[0]],link[2*d[0]+1]]
+                    value=coupling[0][link[2*d[0]],link[2*d[0]+1]]
+                    return self.noEdge if value==coupling[0].noEdge else value
                 else:
                     raise Exception("Coupling not implemented: "+str(coupling))
             else:
@@ -1089,12 +1090,7 @@ class MultiplexNetwork(MultilayerNetwork):
             else:
                 return len(list(self._iter_dim(supernode,aspect,direction=direction)))
         elif isinstance(coupling_type,MultilayerNetwork):
-            if direction=="tot":
-                return self.couplings[aspect-1][0][supernode[aspect]].deg_total()
-            elif direction=="in":
-                return self.couplings[aspect-1][0][supernode[aspect]].deg_in()
-            elif direction=="out":
-                return self.couplings[aspect-1][0][supernode[aspect]].deg_out()
+            return len(list(self._iter_dim(supernode,aspect,direction=direction)))
         elif coupling_type=="none":
             return 0
         else:
@@ -1104,9 +1100,14 @@ class MultiplexNetwork(MultilayerNetwork):
         coupling_type=self.couplings[aspect-1][0]
         if coupling_type=="none":
             return 0
-        coupling_str=self.couplings[aspect-1][1]
         if isinstance(coupling_type,MultilayerNetwork):
-            raise Exception() #please implement this
+            if direction=="tot" and coupling_type.directed:
+                return self._get_dim_strength(node,aspect,direction="in")+self._get_dim_strength(node,aspect,direction="out")
+            elif direction=="in":
+                return sum([coupling_type[neigh[aspect],node[aspect]] for neigh in self._iter_dim(node,aspect,direction="in")])
+            else:
+                return sum([coupling_type[node[aspect],neigh[aspect]] for neigh in self._iter_dim(node,aspect,direction="out")])
+        coupling_str=self.couplings[aspect-1][1]
         return self._get_dim_degree(node,aspect,direction=direction)*coupling_str
 
 
@@ -1134,10 +1135,18 @@ class MultiplexNetwork(MultilayerNetwork):
                     neigh=supernode[:aspect]+(n,)+supernode[aspect+1:]
                     if self._has_node_layer(neigh):
                         yield neigh
+        elif isinstance(coupling_type,MultilayerNetwork):
+            layernode=coupling_type[supernode[aspect]]
+            layers={"tot":layernode.iter_total,"in":layernode.iter_in,"out":layernode.iter_out}[direction]
+            if self.fullyInterconnected or self._has_node_layer(supernode):
+                for n in layers():
+                    neigh=supernode[:aspect]+(n,)+supernode[aspect+1:]
+                    if n in self.slices[aspect] and (self.fullyInterconnected or self._has_node_layer(neigh)):
+                        yield neigh
         elif coupling_type=="none":
             pass
         else:
-            raise NotImplemented()
+            raise NotImplementedError("Coupling '"+str(coupling_type)+"' not implemented.")
         
     def _select_dimensions(self,node,dims):
         if dims==None:
-- 
2.43.0


From 29f4a0aea69183e9861226aa64640e49be4972d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 08/61] fix: networkx.Graph is restored when a wrapped function
 raises or runs concurrently

---
 pymnet/nxwrap.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/pymnet/nxwrap.py b/pymnet/nxwrap.py
index 6aa6e8c..671c8d6 100644
--- a/pymnet/nxwrap.py
+++ b/pymnet/nxwrap.py
@@ -3,6 +3,7 @@
 
 import networkx
 import collections
+import threading
 from functools import wraps
 from pymnet.net import MultilayerNetwork
 
@@ -168,6 +169,23 @@ def autowrap(net):
     assert net.directed==False, "Only undirected networks."
     return MonoplexGraphNetworkxView(net)
 
+#Number of wrapped functions that are being run, and the networkx.Graph they have replaced
+_wrapped_calls={"running":0,"Graph":None}
+_wrapped_calls_lock=threading.Lock()
+
+def _begin_wrapped_call():
+    with _wrapped_calls_lock:
+        if _wrapped_calls["running"]==0:
+            _wrapped_calls["Graph"]=networkx.Graph
+            networkx.Graph=MonoplexGraphNetworkxView
+        _wrapped_calls["running"]+=1
+
+def _end_wrapped_call():
+    with _wrapped_calls_lock:
+        _wrapped_calls["running"]-=1
+        if _wrapped_calls["running"]==0:
+            networkx.Graph=_wrapped_calls["Graph"]
+
 def networkxdecorator(f):
     @wraps(f)
     def newf(*args, **kwargs):
@@ -189,14 +207,13 @@ def networkxdecorator(f):
                 kwargs[key]=ntuple(val) 
 
         #Modify the NetworkX library such that new graphs are wrapped pymnet objects
-        networkx_Graph_original=networkx.Graph
-        networkx.Graph=MonoplexGraphNetworkxView
-
-        #Run the actual function
-        rval=f(*args, **kwargs)
-
-        #Revert the modifications to NetworkX
-        networkx.Graph=networkx_Graph_original
+        _begin_wrapped_call()
+        try:
+            #Run the actual function
+            rval=f(*args, **kwargs)
+        finally:
+            #Revert the modifications to NetworkX
+            _end_wrapped_call()
 
         #Unpack the pymnet objects from the results
         if isinstance(rval,MonoplexGraphNetworkxView):
-- 
2.43.0


From cd9fc33d7d595778deea7f3bb4867777818286b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 09/61] fix: ER networks with zero or tiny edge probabilities

---
 pymnet/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymnet/models.py b/pymnet/models.py
index cc3a4a5..4fe167d 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -184,11 +184,11 @@ def single_layer_er(net,nodes,p=None,edges=None):
                 for node2 in nodes:
                     if node1!=node2:
                         net[node1,node2]=1
-        else:
+        elif p>0:
             v,w=1,-1
             while (v < n):
                 r=random.random()
-                w=w+1+int(math.floor(math.log(1-r)/math.log(1-p)))
+                w=w+1+int(math.floor(math.log(1-r)/math.log1p(-p)))
                 while ((w >= v) and (v < n)):
                     w = w-v
                     v = v+1
-- 
2.43.0


From 1a8bfefab95eb3171aa6a90a5fd19069ac219deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 10/61] fix: refuse UCINET formats that are not supported

---
 pymnet/netio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/netio.py b/pymnet/netio.py
index 6d8343f..bdfae40 100644
--- a/pymnet/netio.py
+++ b/pymnet/netio.py
@@ -248,7 +248,7 @@ def read_ucinet(netinput,couplings=('categorical',1.0),fullyInterconnected=True)
     else:
         net=MultiplexNetwork(couplings=[couplings],fullyInterconnected=fullyInterconnected)
 
-    if format=="fullmatrix" or "fullmatrix diagonal present":
+    if format in ("fullmatrix","fullmatrix diagonal present"):
         try:
             if labels_embedded: #first line is labels
                 #clabels=map(lambda x:x.lower(),ii.next().split())
-- 
2.43.0


From 65289ea24a49e643ac6b21a34644a23ea37fe358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 11/61] fix: threshold of networks that are not node-aligned

---
 pymnet/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index 08dd713..2e865cd 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -452,7 +452,7 @@ def threshold(net,threshold,method=">=",ignoreCouplingEdges=False):
             newNet.add_layer(layer,aspect=aspect+1) 
     if not net.fullyInterconnected:
         for nodelayer in net.iter_node_layers():
-            layer=lnodelayer[1:]
+            layer=nodelayer[1:]
             if net.aspects==1:
                 layer=layer[0]
             newNet.add_node(nodelayer[0],layer=layer)
-- 
2.43.0


From 51c2e28c110fc7b6c3bfc52fbf078890eea23b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 12/61] fix: comparing a non-aligned network to a node-aligned
 one

---
 pymnet/net.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymnet/net.py b/pymnet/net.py
index 8558395..0479031 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -176,6 +176,8 @@ class MultilayerNetwork(object):
         if not isinstance(other,MultilayerNetwork):
             return False
         
+        if self.fullyInterconnected!=other.fullyInterconnected:
+            return False
         if not self.fullyInterconnected:
             if self._nodeToLayers!=other._nodeToLayers:
                 return False
-- 
2.43.0


From 30541472a8df337f69208d318e8444c19fe3d3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 13/61] fix: relabel leaves the given layer names as they are

---
 pymnet/transforms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index 2e865cd..769d8c1 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -287,6 +287,7 @@ def relabel(net,nodeNames=None,layerNames=None):
     if net.aspects==1:
         if isinstance(layerNames,dict):
             layerNames=[layerNames]
+    layerNames=list(layerNames)
 
     for aspect in range(net.aspects):
         if len(layerNames)<aspect+1:
-- 
2.43.0


From b833a9be0b03c69acaf493fd025eaa540f6aaece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 14/61] fix: subnet_iter goes through the intra-layer edges of
 each subnetwork once

---
 pymnet/transforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index 769d8c1..5384a4f 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -553,11 +553,12 @@ def subnet_iter(net,remove_elayers=[],remove_edges=True):
             if isinstance(net,netmodule.MultiplexNetwork):
                 #For multiplex networks we do not want to go through coupling edges
                 couplings=subnet_with_edges.couplings
+                subnet_with_edges.couplings=[("none",) for coupling in couplings]
                 edges=list(subnet_with_edges.edges)
                 subnet_with_edges.couplings=couplings
             else:
                 #For multilayer networks we go through all edges
-                edges=net.edges
+                edges=list(subnet_with_edges.edges)
             for newnet_edges in all_combinations(edges):
                 newnet=subnet(subnet_with_edges,*nl,nolinks=True)
                 for edge in newnet_edges:
-- 
2.43.0


From c8faae674cb71ee751ed7bb69bae9500e40bf3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 15/61] fix: overlap_degs imports the transforms it uses

---
 pymnet/diagnostics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymnet/diagnostics.py b/pymnet/diagnostics.py
index da79c68..33cec4b 100644
--- a/pymnet/diagnostics.py
+++ b/pymnet/diagnostics.py
@@ -1,4 +1,5 @@
 from .net import MultilayerNetwork,MultiplexNetwork
+from .transforms import aggregate,subnet,threshold
 import heapq,itertools
 
 def degs(net,degstype="distribution"):
-- 
2.43.0


From 7495d6ac27bc010096e1a86deaa682bd56c39765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 16/61] fix: cc_cycle_vector_adj does not change the network it
 is given

---
 pymnet/cc.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/pymnet/cc.py b/pymnet/cc.py
index 637bb55..3e25125 100644
--- a/pymnet/cc.py
+++ b/pymnet/cc.py
@@ -630,13 +630,7 @@ def cc_cycle_vector_adj(net,node,layer):
     import numpy
     adj,nodes1=net.get_supra_adjacency_matrix()
 
-    temp=net.couplings[0]
-    net.couplings[0]=('categorical',0)
-    a,nodes2=net.get_supra_adjacency_matrix()
-    net.couplings[0]=temp
-
-    a_test,nodes3=net.get_supra_adjacency_matrix(includeCouplings=False)
-    assert (a==a_test).all()
+    a,nodes2=net.get_supra_adjacency_matrix(includeCouplings=False)
 
     assert nodes1==nodes2
 
-- 
2.43.0


From 253efe16d6d37dbc2f802837e0baa201726d83e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 17/61] fix: normalized coordinates fill the given box, also
 when they coincide

---
 pymnet/visuals/layouts.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymnet/visuals/layouts.py b/pymnet/visuals/layouts.py
index 14879a8..a5ec5ba 100644
--- a/pymnet/visuals/layouts.py
+++ b/pymnet/visuals/layouts.py
@@ -85,7 +85,9 @@ def normalize_coordinates(coords,boxSize,inplace=False):
     #for node, (x, y) in coords.iteritems():
     for node in coords:
         x,y=coords[node]
-        newcoords[node]=((x-minx)/difx, (y-miny)/dify )
+        newx=boxSize[0]*((x-minx)/float(difx)) if difx>0 else 0.
+        newy=boxSize[1]*((y-miny)/float(dify)) if dify>0 else 0.
+        newcoords[node]=(newx,newy)
     return newcoords 
 
 
-- 
2.43.0


From 39242d770875d933fbc53e526e4eb4a512c854fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 18/61] fix: partitions_with_remainder on Python 3

---
 pymnet/graphlets/graphlets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/graphlets/graphlets.py b/pymnet/graphlets/graphlets.py
index 2484f02..a69694a 100644
--- a/pymnet/graphlets/graphlets.py
+++ b/pymnet/graphlets/graphlets.py
@@ -688,7 +688,7 @@ def partitions_with_remainder(s, r): #Gareth Rees https://stackoverflow.com/ques
     [((0, 1, 2),), ((1, 2), (0,)), ((0, 2), (1,)), ((0, 1), (2,))]
     """
     s = set(s)
-    for n in xrange(len(s), -1, -r): # n is size of remainder.
+    for n in range(len(s), -1, -r): # n is size of remainder.
         if n == 0:
             for p in partitions(s, r):
                 yield p
-- 
2.43.0


From 38418e5a66945a2f650b05cb9c5ba9cc8ace9391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 19/61] fix: copying multiplex networks coupled by a network

---
 pymnet/net.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymnet/net.py b/pymnet/net.py
index 0479031..8ce5cb3 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -940,6 +940,8 @@ class MultiplexNetwork(MultilayerNetwork):
 
         if isinstance(couplings,list):
             for coupling in couplings:
+                if isinstance(coupling,tuple) and len(coupling)==1 and isinstance(coupling[0],MultilayerNetwork):
+                    coupling=coupling[0] #the format used by the couplings of another multiplex network
                 if isinstance(coupling,tuple):
                     assert len(coupling)!=0
                     assert coupling[0] in coupling_types
-- 
2.43.0


From 22c137a1351c655fcedf6471fb7d68fa8ce19195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:36 +0000
Subject: [PATCH 20/61] fix: replacing an intra-layer network forgets the nodes
 of the old one

---
 pymnet/net.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymnet/net.py b/pymnet/net.py
index 8ce5cb3..fcb11bd 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -839,6 +839,10 @@ class MultiplexIntraNetDict(MutableMapping):
         assert val.aspects==0, "Intra-layer networks need to be monoplex networks."
         
         if key in self._dict:
+            if not self._net.fullyInterconnected: #the nodes of the replaced network are not on the layer any more
+                for node in self._dict[key]:
+                    if node in self._net._nodeToLayers:
+                        self._net._nodeToLayers[node].discard(key)
             self._add_empty_network(key)
             transforms.subnet(val,val,newNet=self[key]) #copy the val to the layer
         else:
-- 
2.43.0


From 97143e593707bdbd739de05f6d0657470d1393df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:23 +0000
Subject: [PATCH 21/61] fix: slices of multiplex networks show links to other
 nodes and layers

---
 pymnet/net.py | 48 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index fcb11bd..d4f8eb1 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1162,17 +1162,33 @@ class MultiplexNetwork(MultilayerNetwork):
                 yield d
         else:
             l=[]
+            foreign=self._get_foreign_dimensions(node,dims)
+            if len(foreign)>1:
+                return
+            elif len(foreign)==1:
+                yield foreign[0]
+                return
             for d,val in enumerate(dims):
-                if val!=None and node[d]!=val:
-                    return
                 if val==None:
                     l.append(d)
             for d in l:
                 yield d
 
+    def _get_foreign_dimensions(self,node,dims):
+        """Returns list of dimensions where dims select something else than the node itself.
+        """
+        if dims==None:
+            return []
+        return [d for d,val in enumerate(dims) if val!=None and node[d]!=val]
+
+    def _is_selected(self,neigh,dims):
+        return dims==None or all(val==None or neigh[d]==val for d,val in enumerate(dims))
+
     def _get_degree_total_dir(self,node, dims):
         """Overrides parents method.
         """
+        if self._get_foreign_dimensions(node,dims):
+            return len(list(self._iter_neighbors_total_dir(node,dims)))
         k=0
         for d in self._select_dimensions(node,dims):
             if d==0:
@@ -1184,6 +1200,8 @@ class MultiplexNetwork(MultilayerNetwork):
     def _get_degree_in_dir(self,node, dims):
         """Overrides parents method.
         """
+        if self._get_foreign_dimensions(node,dims):
+            return len(list(self._iter_neighbors_in_dir(node,dims)))
         k=0
         for d in self._select_dimensions(node,dims):
             if d==0:
@@ -1195,6 +1213,8 @@ class MultiplexNetwork(MultilayerNetwork):
     def _get_degree_out(self,node, dims):
         """Overrides parents method.
         """
+        if self._get_foreign_dimensions(node,dims):
+            return len(list(self._iter_neighbors_out(node,dims)))
         k=0
         for d in self._select_dimensions(node,dims):
             if d==0:
@@ -1207,6 +1227,8 @@ class MultiplexNetwork(MultilayerNetwork):
     def _get_strength_total_dir(self,node, dims):
         """Overrides parents method.
         """
+        if self._get_foreign_dimensions(node,dims):
+            return self._get_strength_in_dir(node,dims)+self._get_strength_out(node,dims)
         s=0
         for d in self._select_dimensions(node,dims):
             if d==0:
@@ -1219,6 +1241,8 @@ class MultiplexNetwork(MultilayerNetwork):
     def _get_strength_in_dir(self,node, dims):
         """Overrides parents method.
         """
+        if self._get_foreign_dimensions(node,dims):
+            return sum(self._get_link(self._nodes_to_link(n,node)) for n in self._iter_neighbors_in_dir(node,dims))
         s=0
         for d in self._select_dimensions(node,dims):
             if d==0:
@@ -1231,6 +1255,8 @@ class MultiplexNetwork(MultilayerNetwork):
     def _get_strength_out(self,node, dims):
         """Overrides parents method.
         """
+        if self._get_foreign_dimensions(node,dims):
+            return sum(self._get_link(self._nodes_to_link(node,n)) for n in self._iter_neighbors_out(node,dims))
         s=0
         for d in self._select_dimensions(node,dims):
             if d==0:
@@ -1247,10 +1273,12 @@ class MultiplexNetwork(MultilayerNetwork):
         for d in self._select_dimensions(node,dims):
             if d==0:                
                 for n in self._get_A_with_tuple(node[1:])._iter_neighbors_total((node[0],)):
-                    yield (n[0],)+node[1:]
+                    if self._is_selected((n[0],)+node[1:],dims):
+                        yield (n[0],)+node[1:]
             else:
                 for n in self._iter_dim(node,d,direction="tot"):
-                    yield n
+                    if self._is_selected(n,dims):
+                        yield n
 
     def _iter_neighbors_in_dir(self,node,dims):
         """Overrides parents method.
@@ -1258,10 +1286,12 @@ class MultiplexNetwork(MultilayerNetwork):
         for d in self._select_dimensions(node,dims):
             if d==0:                
                 for n in self._get_A_with_tuple(node[1:])._iter_neighbors_in((node[0],)):
-                    yield (n[0],)+node[1:]
+                    if self._is_selected((n[0],)+node[1:],dims):
+                        yield (n[0],)+node[1:]
             else:
                 for n in self._iter_dim(node,d,direction="in"):
-                    yield n
+                    if self._is_selected(n,dims):
+                        yield n
 
     def _iter_neighbors_out(self,node,dims):
         """Overrides parents method.
@@ -1269,10 +1299,12 @@ class MultiplexNetwork(MultilayerNetwork):
         for d in self._select_dimensions(node,dims):
             if d==0:                
                 for n in self._get_A_with_tuple(node[1:])._iter_neighbors_out((node[0],)):
-                    yield (n[0],)+node[1:]
+                    if self._is_selected((n[0],)+node[1:],dims):
+                        yield (n[0],)+node[1:]
             else:
                 for n in self._iter_dim(node,d,direction="out"):
-                    yield n
+                    if self._is_selected(n,dims):
+                        yield n
 
     def __eq__(self,other):
         if type(self) is type(other):
-- 
2.43.0


From 43e635adc152f881b68681b14c6b11ad4a02e001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 22/61] fix: layout of networks with nodes that are on no layer

---
 pymnet/visuals/layouts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/visuals/layouts.py b/pymnet/visuals/layouts.py
index a5ec5ba..36858c8 100644
--- a/pymnet/visuals/layouts.py
+++ b/pymnet/visuals/layouts.py
@@ -220,7 +220,7 @@ def get_fruchterman_reingold_multilayer_layout(net,
             for node1 in net:
                 for node2 in net:
                     if node1!=node2:
-                        layer_overlap=len(net._nodeToLayers[node1].intersection(net._nodeToLayers[node2]))
+                        layer_overlap=len(net._nodeToLayers.get(node1,set()).intersection(net._nodeToLayers.get(node2,set())))
                         diff=(nc[node1][0]-nc[node2][0], nc[node1][1]-nc[node2][1])
                         dist=math.sqrt(diff[0]**2+diff[1]**2)
                         dist=max(dist,min_dist)
-- 
2.43.0


From 9cdeb1a7e4469554c6e3f19b942fe647fb2e95f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 23/61] fix: isomorphisms of monoplex networks

---
 pymnet/isomorphisms/isomcore.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymnet/isomorphisms/isomcore.py b/pymnet/isomorphisms/isomcore.py
index 90ab0ba..7ec83bd 100644
--- a/pymnet/isomorphisms/isomcore.py
+++ b/pymnet/isomorphisms/isomcore.py
@@ -89,6 +89,8 @@ class AuxiliaryGraphBuilder(object):
         #edges between node-layers:
         for nl1 in self.net.iter_node_layers():
             for nl2 in self.net[nl1]:
+                if self.net.aspects==0: #neighbors are node names, not tuples
+                    nl2=(nl2,)
                 nl1id=self._get_node_id(nl1)
                 nl2id=self._get_node_id(nl2)
                 self.add_link(nl1id,nl2id)
-- 
2.43.0


From 454a4bf58f74c17554eadab40f0c354cf3b026c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:25 +0000
Subject: [PATCH 24/61] fix: overlay networks of directed networks are directed

---
 pymnet/transforms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index 5384a4f..52b15f0 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -109,7 +109,9 @@ def overlay_network(net):
        A new instance of multiplex network which is produced.
     """
     assert net.aspects==1
-    newnet=netmodule.MultilayerNetwork()
+    newnet=netmodule.MultilayerNetwork(directed=net.directed)
+    for node in net:
+        newnet.add_node(node)
     for layer in net.slices[1]:
         for node1 in net.slices[0]:
             for node2 in net.slices[0]:
-- 
2.43.0


From 96ed001c4f3aff1d3a3bfc1c2a54edfe90d0c40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:25 +0000
Subject: [PATCH 25/61] fix: aggregating keeps the layers without links

---
 pymnet/transforms.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index 52b15f0..caf56e2 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -73,6 +73,11 @@ def aggregate(net,aspects,newNet=None,selfEdges=False):
     #Add nodes
     for node in net:
         newNet.add_node(node)
+
+    #Add the layers of the aspects that are left
+    for newAspect,aspect in enumerate(filter(lambda x:x not in aspects,range(1,net.aspects+1))):
+        for layer in net.slices[aspect]:
+            newNet.add_layer(layer,newAspect+1)
     
     #Add edges
     edgeIndices=list(filter(lambda x:math.floor(x/2) not in aspects,range(2*(net.aspects+1))))
-- 
2.43.0


From d533fefc374278d3eab5aa15d72a9bfe3ff7a3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:31 +0000
Subject: [PATCH 26/61] fix: network models return the requested nodes and
 layers also when these have no links

---
 pymnet/models.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/pymnet/models.py b/pymnet/models.py
index 4fe167d..ef8bd1c 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -417,20 +417,25 @@ def full(nodes,layers,couplings=('categorical',1.0)):
     if layers==None:
         n=MultilayerNetwork(aspects=0)
         for node1 in range(nodes):
+            n.add_node(node1)
             for node2 in range(nodes):
                 if node1!=node2:
                     n[node1,node2]=1
     elif not hasattr(layers,'__iter__'): #is not sequence
         n=MultiplexNetwork(couplings=[couplings])
         for layer in range(layers):
+            n.add_layer(layer)
             for node1 in range(nodes):
+                n.add_node(node1)
                 for node2 in range(nodes):
                     if node1!=node2:
                         n[node1,node2,layer,layer]=1
     else: #it's a sequence
         n=MultiplexNetwork(couplings=[couplings])
         for layer in layers:
+            n.add_layer(layer)
             for node1 in range(nodes):
+                n.add_node(node1)
                 for node2 in range(nodes):
                     if node1!=node2:
                         n[node1,node2,layer,layer]=1
@@ -459,6 +464,10 @@ def full_multilayer(nodes,layers):
         layers=range(layers)
 
     n=MultilayerNetwork(aspects=1)
+    for node in range(nodes):
+        n.add_node(node)
+    for layer in layers:
+        n.add_layer(layer)
     for layer1 in layers:
         for layer2 in layers:
             for node1 in range(nodes):
@@ -494,6 +503,10 @@ def er_multilayer(nodes,layers,p,randomWeights=False):
         layers=range(layers)
 
     n=MultilayerNetwork(aspects=1)
+    for node in range(nodes):
+        n.add_node(node)
+    for layer in layers:
+        n.add_layer(layer)
     for layer1 in layers:
         for layer2 in layers:
             for node1 in range(nodes):
@@ -554,6 +567,10 @@ def conf_overlaps(ol_degs, couplings=None):
     
     for layer_comb in ol_degs:
         degs = ol_degs[layer_comb]
+        for layer in layer_comb:
+            net.add_layer(layer)
+        for node in degs:
+            net.add_node(node)
         
         # mostly modified from single_layer_conf
         stubs=[]
@@ -742,9 +759,13 @@ def er_overlaps_match_aggregated(n, edges, ps, couplings=None):
     
     net = MultiplexNetwork(couplings=couplings)
     used_edges = set()
+    for node in range(n):
+        net.add_node(node)
     
     e_left = {}
     for layer_comb in ps:
+        for layer in layer_comb:
+            net.add_layer(layer)
         if len(layer_comb) == 1:
             e_left[layer_comb[0]] = e_left.get(layer_comb[0], edges)
             continue
@@ -811,6 +832,8 @@ def ba_total_degree(n, ms, couplings=None):
     """
     
     net = MultiplexNetwork(couplings=couplings)
+    for layer in range(len(ms)):
+        net.add_layer(layer)
     links = []
     
     for i in range(n):
-- 
2.43.0


From f569e25639951efdd05353687ad48e6ed7118483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:31 +0000
Subject: [PATCH 27/61] fix: random weights of er_multilayer are in (0,1] and
 never drop a link

---
 pymnet/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/models.py b/pymnet/models.py
index ef8bd1c..64bd491 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -514,7 +514,7 @@ def er_multilayer(nodes,layers,p,randomWeights=False):
                     if node1!=node2 or layer1!=layer2:
                         if random.random()<p:
                             if randomWeights:
-                                n[node1,node2,layer1,layer2]=random.random()
+                                n[node1,node2,layer1,layer2]=1-random.random()
                             else:
                                 n[node1,node2,layer1,layer2]=1
 
-- 
2.43.0


From b7e65f800c37858fcd28bb57af5402a1d1f49782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 28/61] fix: ws networks have all the requested nodes

---
 pymnet/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymnet/models.py b/pymnet/models.py
index 64bd491..b7a0612 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -893,6 +893,8 @@ try:
         for layer, m in enumerate(edges):
             net.add_layer(layer)
             net.A[layer] = nx.watts_strogatz_graph(n, int(math.ceil(2*m / float(n))), p=p)
+        for node in range(n):
+            net.add_node(node)
 
         return net
     
-- 
2.43.0


From d427edab35bd873e6b660a0db34d5c7bc64211d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:52 +0000
Subject: [PATCH 29/61] fix: wrapped networkx functions do not change what
 networkx does in other threads

---
 pymnet/nxwrap.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/pymnet/nxwrap.py b/pymnet/nxwrap.py
index 671c8d6..ae2cbff 100644
--- a/pymnet/nxwrap.py
+++ b/pymnet/nxwrap.py
@@ -172,15 +172,34 @@ def autowrap(net):
 #Number of wrapped functions that are being run, and the networkx.Graph they have replaced
 _wrapped_calls={"running":0,"Graph":None}
 _wrapped_calls_lock=threading.Lock()
+_wrapped_calls_in_thread=threading.local()
+
+def _graph_class():
+    if getattr(_wrapped_calls_in_thread,"running",0)>0:
+        return MonoplexGraphNetworkxView
+    return _plain_graph
+
+_plain_graph=networkx.Graph
+
+class _GraphDuringWrappedCallsType(type(networkx.Graph)):
+    def __call__(cls,*args,**kwargs):
+        return _graph_class()(*args,**kwargs)
+    def __instancecheck__(cls,instance):
+        return isinstance(instance,_graph_class())
+
+#The networkx.Graph while wrapped functions are being run: only the threads running them get pymnet objects
+_GraphDuringWrappedCalls=_GraphDuringWrappedCallsType("Graph",(networkx.Graph,),{})
 
 def _begin_wrapped_call():
+    _wrapped_calls_in_thread.running=getattr(_wrapped_calls_in_thread,"running",0)+1
     with _wrapped_calls_lock:
         if _wrapped_calls["running"]==0:
             _wrapped_calls["Graph"]=networkx.Graph
-            networkx.Graph=MonoplexGraphNetworkxView
+            networkx.Graph=_GraphDuringWrappedCalls
         _wrapped_calls["running"]+=1
 
 def _end_wrapped_call():
+    _wrapped_calls_in_thread.running-=1
     with _wrapped_calls_lock:
         _wrapped_calls["running"]-=1
         if _wrapped_calls["running"]==0:
-- 
2.43.0


From d313a99a0bdefc2e5710824c443fa2354aa5f8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:43 +0000
Subject: [PATCH 30/61] fix: wrapped networkx functions returning subgraph
 views gave an empty network

---
 pymnet/nxwrap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymnet/nxwrap.py b/pymnet/nxwrap.py
index ae2cbff..bcb4173 100644
--- a/pymnet/nxwrap.py
+++ b/pymnet/nxwrap.py
@@ -236,6 +236,9 @@ def networkxdecorator(f):
 
         #Unpack the pymnet objects from the results
         if isinstance(rval,MonoplexGraphNetworkxView):
+            #A view to a part of a graph has no network of its own until it is copied
+            if hasattr(rval,"_adj") and not isinstance(rval._adj,MonoplexGraphWrapper_adj):
+                rval=rval.copy()
             rval=rval.net
 
         return rval
-- 
2.43.0


From 80a40f20fec028bd38b13ebc5ee3917a6f0dfea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:12 +0000
Subject: [PATCH 31/61] fix: wrapped networkx functions gave plain graphs when
 the function creates them with an imported default

---
 pymnet/nxwrap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymnet/nxwrap.py b/pymnet/nxwrap.py
index bcb4173..f53a3aa 100644
--- a/pymnet/nxwrap.py
+++ b/pymnet/nxwrap.py
@@ -240,6 +240,9 @@ def networkxdecorator(f):
             if hasattr(rval,"_adj") and not isinstance(rval._adj,MonoplexGraphWrapper_adj):
                 rval=rval.copy()
             rval=rval.net
+        #Some functions do not look up networkx.Graph when they are called
+        elif type(rval)==_plain_graph and not isinstance(f,type):
+            rval=MonoplexGraphNetworkxView(data=rval).net
 
         return rval
 
-- 
2.43.0


From c89a33ccc3e2c63126d5e1e78a0afe058a414837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:40 +0000
Subject: [PATCH 32/61] fix: refusing to remove a node through the networkx
 view removed its links

---
 pymnet/nxwrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/nxwrap.py b/pymnet/nxwrap.py
index f53a3aa..f4a638d 100644
--- a/pymnet/nxwrap.py
+++ b/pymnet/nxwrap.py
@@ -130,7 +130,7 @@ class MonoplexGraphWrapper_node(MutableMapping):
     def __setitem__(self,key,val):
         pass
     def __delitem__(self,key):
-        pass
+        raise Exception("Cannot remove nodes.")
 
 
 class MonoplexGraphNetworkxView(networkx.Graph):
-- 
2.43.0


From 298f1d6aa85b11c94b16c591d579256db81e83b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:40 +0000
Subject: [PATCH 33/61] fix: links added through the networkx view get their
 weight attribute, not their first attribute, as weight

---
 pymnet/nxwrap.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pymnet/nxwrap.py b/pymnet/nxwrap.py
index f4a638d..7feaf74 100644
--- a/pymnet/nxwrap.py
+++ b/pymnet/nxwrap.py
@@ -70,9 +70,8 @@ class MonoplexGraphWrapper_adjlist(MutableMapping):
     def __setitem__(self,key,val):
         if key.__class__==tuple: key=ntuple(key) 
         if isinstance(val,dict) or isinstance(val,MonoplexGraphWrapper_singleedge):
-            if len(val)>0:
-                #self.net[self.node,key]=list(val.itervalues())[0]
-                self.net[self.node,key]=list( (val[key] for key in val))[0]
+            if "weight" in val:
+                self.net[self.node,key]=val["weight"]
             else:
                 self.net[self.node,key]=1
         else:
-- 
2.43.0


From de81e5aefb315949399208600a4671155af18053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:06 +0000
Subject: [PATCH 34/61] fix: removing a missing link through the networkx view
 added its end as a node

---
 pymnet/nxwrap.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pymnet/nxwrap.py b/pymnet/nxwrap.py
index 7feaf74..199b36c 100644
--- a/pymnet/nxwrap.py
+++ b/pymnet/nxwrap.py
@@ -77,7 +77,9 @@ class MonoplexGraphWrapper_adjlist(MutableMapping):
         else:
             self.net[self.node,key]=val
     def __delitem__(self,key):
-        self.net[self.node,key]=self.net.noEdge
+        if key.__class__==tuple: key=ntuple(key) 
+        if key in self:
+            self.net[self.node,key]=self.net.noEdge
 
 
 class MonoplexGraphWrapper_adj(MutableMapping):
@@ -153,6 +155,11 @@ class MonoplexGraphNetworkxView(networkx.Graph):
         if data is not None:
             networkx.convert.to_networkx_graph(data,create_using=self)
 
+    def remove_edge(self,u,v):
+        if not self.has_edge(u,v):
+            raise networkx.NetworkXError("The edge %s-%s is not in the graph" % (u,v))
+        super(MonoplexGraphNetworkxView, self).remove_edge(u,v)
+
     def fresh_copy(self):
         fresh_net=MultilayerNetwork(aspects=0)
         return MonoplexGraphNetworkxView(fresh_net)
-- 
2.43.0


From a24ef150fa541461ff78b2a2b1c16fb22e9d6eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 35/61] fix: web pages of networks with quotes, backslashes or
 tags in labels were broken

---
 pymnet/visuals/webplots.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymnet/visuals/webplots.py b/pymnet/visuals/webplots.py
index e501978..2a181f6 100644
--- a/pymnet/visuals/webplots.py
+++ b/pymnet/visuals/webplots.py
@@ -118,6 +118,9 @@ def webplot(net,outputfile=None):
     script=webplot_template
     netdatastr=netio.write_json(net)
 
+    #The data is inside a string literal in a script element
+    netdatastr=netdatastr.replace("\\","\\\\").replace("'","\\'").replace("<","\\x3c")
+
     replace={"@netjson" : netdatastr}
     for key,val in replace.items():
         script=script.replace(key,val)
-- 
2.43.0


From 1083ba4937270f2998c3ffe2389b73ba3400de61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:32 +0000
Subject: [PATCH 36/61] fix: failed writes left files open, and their buffers
 could be written into the file later

---
 pymnet/netio.py            | 41 +++++++++++++++++++-------------------
 pymnet/visuals/webplots.py | 10 ++++++----
 2 files changed, 27 insertions(+), 24 deletions(-)

diff --git a/pymnet/netio.py b/pymnet/netio.py
index bdfae40..bbe7453 100644
--- a/pymnet/netio.py
+++ b/pymnet/netio.py
@@ -38,8 +38,10 @@ def write_json(net,outputfile=None):
         if isinstance(outputfile,"".__class__) or isinstance(outputfile,u"".__class__):
             outputfile=open(outputfile,'w')
 
-        json.dump(nets,outputfile)
-        outputfile.close()
+        try:
+            json.dump(nets,outputfile)
+        finally:
+            outputfile.close()
     else:
         return json.dumps(nets)
 
@@ -63,30 +65,29 @@ def read_edge_files(edgeinput,layerinput=None,nodeinput=None,couplings='categori
 def write_edge_files(net,outputfiles,columnSeparator="\t",rowSeparator="\n",weights=True,masterFile=False,numericNodes=False):
     assert isinstance(net,MultiplexNetwork)
     assert net.aspects==1
-    if masterFile:
-        mofile=open(outputfiles+".txt",'w')
-
     if numericNodes:
         nodetonumber={}
         for i,node in enumerate(net):
             nodetonumber[node]=i
 
-    for layer in net.get_layers():
-        ofilename=outputfiles+str(layer)+".edg"
-        ofile=open(ofilename,'w')
+    mofile=open(outputfiles+".txt",'w') if masterFile else None
+    try:
+        for layer in net.get_layers():
+            ofilename=outputfiles+str(layer)+".edg"
+            with open(ofilename,'w') as ofile:
+                if masterFile:
+                    mofile.write(os.path.basename(ofilename)+";"+str(layer)+";\n")
+                for edge in net.A[layer].edges:
+                    n1,n2=edge[0],edge[1]
+                    if numericNodes:
+                        n1,n2=nodetonumber[n1],nodetonumber[n2]
+                    if weights:
+                        ofile.write(str(n1)+columnSeparator+str(n2)+columnSeparator+str(edge[2])+rowSeparator)
+                    else:
+                        ofile.write(str(n1)+columnSeparator+str(n2)+rowSeparator)
+    finally:
         if masterFile:
-            mofile.write(os.path.basename(ofilename)+";"+str(layer)+";\n")
-        for edge in net.A[layer].edges:
-            n1,n2=edge[0],edge[1]
-            if numericNodes:
-                n1,n2=nodetonumber[n1],nodetonumber[n2]
-            if weights:
-                ofile.write(str(n1)+columnSeparator+str(n2)+columnSeparator+str(edge[2])+rowSeparator)
-            else:
-                ofile.write(str(n1)+columnSeparator+str(n2)+rowSeparator)
-        ofile.close()
-    if masterFile:
-        mofile.close()
+            mofile.close()
 
 def read_ucinet(netinput,couplings=('categorical',1.0),fullyInterconnected=True):
     """Reads network in UCINET DL format.
diff --git a/pymnet/visuals/webplots.py b/pymnet/visuals/webplots.py
index 2a181f6..28bfc87 100644
--- a/pymnet/visuals/webplots.py
+++ b/pymnet/visuals/webplots.py
@@ -131,7 +131,9 @@ def webplot(net,outputfile=None):
         if isinstance(outputfile,"".__class__) or isinstance(outputfile,u"".__class__):
             outputfile=open(outputfile,'w')
 
-        outputfile.write("<html><body>")
-        outputfile.write(script)
-        outputfile.write("</body></html>")
-        outputfile.close()
+        try:
+            outputfile.write("<html><body>")
+            outputfile.write(script)
+            outputfile.write("</body></html>")
+        finally:
+            outputfile.close()
-- 
2.43.0


From ddf8b89f4a71def1854a8e4ad5e7826f536a18af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:59 +0000
Subject: [PATCH 37/61] fix: UCINET files lost nodes without links and could
 not have layers without links

---
 pymnet/netio.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pymnet/netio.py b/pymnet/netio.py
index bbe7453..203b624 100644
--- a/pymnet/netio.py
+++ b/pymnet/netio.py
@@ -287,11 +287,14 @@ def read_ucinet(netinput,couplings=('categorical',1.0),fullyInterconnected=True)
         raise Exception("Format '%s' is not supported" % format)
 
 
-    if fullyInterconnected and nm!=1:
+    if nm!=1:
+        assert len(llabels)==nm,"Invalid number of level labels."
         for layer in llabels:
-            for node in clabels:
-                net.A[layer].add_node(node)
-            for node in rlabels:
-                net.A[layer].add_node(node)
+            net.add_layer(layer)
+    if fullyInterconnected:
+        for node in clabels:
+            net.add_node(node)
+        for node in rlabels:
+            net.add_node(node)
 
     return net
-- 
2.43.0


From 401fecbaa34c6dc1f0bb2a94084d8597e0f686ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:31 +0000
Subject: [PATCH 38/61] fix: UCINET data with embedded labels can be wrapped
 and later matrices use their own row labels

---
 pymnet/netio.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pymnet/netio.py b/pymnet/netio.py
index 203b624..402539f 100644
--- a/pymnet/netio.py
+++ b/pymnet/netio.py
@@ -254,14 +254,18 @@ def read_ucinet(netinput,couplings=('categorical',1.0),fullyInterconnected=True)
             if labels_embedded: #first line is labels
                 #clabels=map(lambda x:x.lower(),ii.next().split())
                 clabels=list(map(lambda x:x.lower(),ii.send(None).split()))
+                while len(clabels)<n:
+                    clabels.extend(map(lambda x:x.lower(),ii.send(None).split()))
                 rlabels=[]
             assert len(clabels)==n,"Invalid number of labels."
+            assert labels_embedded or len(rlabels)==n,"Invalid number of labels."
             row=0
+            ncolumns=n+1 if labels_embedded else n
             while True:
                 #line=ii.next().strip()
                 line=ii.send(None).strip()
                 fields=line.split()
-                while len(fields)<n:
+                while len(fields)<ncolumns:
                     #line=ii.next().strip()
                     line=ii.send(None).strip()
                     fields.extend(line.split())
@@ -277,9 +281,10 @@ def read_ucinet(netinput,couplings=('categorical',1.0),fullyInterconnected=True)
                                 net[clabels[column]][rlabels[row]]=float(field)
                     else:
                         level=int(math.floor(row/n))
-                        if clabels[column]!=rlabels[row%n]:
+                        rlabel=rlabels[row] if labels_embedded else rlabels[row%n]
+                        if clabels[column]!=rlabel:
                             if float(field)!=0.0:
-                                net[clabels[column],rlabels[row%n],llabels[level],llabels[level]]=float(field)
+                                net[clabels[column],rlabel,llabels[level],llabels[level]]=float(field)
                 row+=1
         except StopIteration:
             assert row==n*nm, "Invalid number of rows in the data"
-- 
2.43.0


From 2b6dee22e12296878e756e04a7147ec0db5d6ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:29 +0000
Subject: [PATCH 39/61] fix: equal networks had different hashes

---
 pymnet/net.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index d4f8eb1..3e1f123 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -620,7 +620,8 @@ class MultilayerNetwork(object):
 
 
     def __hash__(self):
-        return pickle.dumps(self).__hash__()
+        #equal networks have equal hashes, however they were built
+        return hash((self.aspects,self.directed,tuple(map(frozenset,self.slices)),len(self.edges)))
 
     def get_supra_adjacency_matrix(self,includeCouplings=True):
         """Returns the supra-adjacency matrix and a list of node-layer pairs.
-- 
2.43.0


From a7ff62449297ab4b0a70ae7c950da31de8104c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:55 +0000
Subject: [PATCH 40/61] fix: layouts of node-layers had coordinates for nodes
 or for a made-up layer

---
 pymnet/visuals/layouts.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymnet/visuals/layouts.py b/pymnet/visuals/layouts.py
index 36858c8..fca9103 100644
--- a/pymnet/visuals/layouts.py
+++ b/pymnet/visuals/layouts.py
@@ -43,7 +43,7 @@ def get_layout(layout,net,alignedNodes=True,**kwargs):
             for nl in net.iter_node_layers():
                 nlcoords[nl]=(random.random(),random.random())
         elif layout=="fr":
-            nlcoords=get_fruchterman_reingold_multilayer_layout(net)
+            nlcoords=get_fruchterman_reingold_multilayer_layout(net,alignedNodes=False)
         else:
             raise Exception("Invalid layout: "+layout)
     return ncoords,nlcoords         
@@ -143,8 +143,8 @@ def get_fruchterman_reingold_multilayer_layout(net,
     assert isinstance(net,pymnet.MultilayerNetwork), "Invalid network type"
     assert net.aspects>=1, "No monoplex networks"
 
-    #If the network is fully interconnected, we just create network with one layer
-    if net.fullyInterconnected:
+    #If the network is fully interconnected and the nodes are aligned, we just create network with one layer
+    if net.fullyInterconnected and alignedNodes:
         assert nodelayerCoords==None, "Only node coordinates for fully interconnected networks"
         magg=pymnet.MultiplexNetwork(fullyInterconnected=False)
         magg.add_layer("all")
-- 
2.43.0


From 703bdff5816b6d305447f37c8f2e99a95509925c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:55 +0000
Subject: [PATCH 41/61] fix: layout of networks without nodes

---
 pymnet/visuals/layouts.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymnet/visuals/layouts.py b/pymnet/visuals/layouts.py
index fca9103..1f2eb1c 100644
--- a/pymnet/visuals/layouts.py
+++ b/pymnet/visuals/layouts.py
@@ -63,6 +63,8 @@ def normalize_coordinates(coords,boxSize,inplace=False):
     boxSize : tuple of floats
        The size of the box where the coordinates are to be normalized
     """
+    if len(coords)==0:
+        return coords if inplace else {}
     minx,miny,maxx,maxy=None,None,None,None
     #for node,(x,y) in coords.iteritems():
     for node in coords:
@@ -153,7 +155,7 @@ def get_fruchterman_reingold_multilayer_layout(net,
 
     #nodeDist
     if nodeDist=="auto":
-        nodeDist=1./math.sqrt(len(net.slices[0]))
+        nodeDist=1./math.sqrt(max(1,len(net.slices[0])))
     else:
         nodeDist=float(nodeDist)
         assert nodeDist>0
-- 
2.43.0


From cb1a70a6ea57fe5f352015164e2bffd3d8160723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:17 +0000
Subject: [PATCH 42/61] fix: overlap degrees of weighted networks depended on
 the order of the layers

---
 pymnet/diagnostics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymnet/diagnostics.py b/pymnet/diagnostics.py
index 33cec4b..5ee2ce2 100644
--- a/pymnet/diagnostics.py
+++ b/pymnet/diagnostics.py
@@ -112,6 +112,9 @@ def overlap_degs(net):
     layers = net.slices[1]
     
     net0 = subnet(net, nodes, layers)
+    for layer in layers: #the links are counted, whatever their weights
+        for e in list(net0.A[layer].edges):
+            net0[e[0], e[1], layer] = 1
     
     for n_l in range(len(layers), 0, -1):
         for layer_comb in itertools.combinations(layers, n_l):
-- 
2.43.0


From 2b207fae58711766ecf4e6415dfe3374e4164d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 43/61] fix: subgraph sampling lost links of weight zero in
 networks with another noEdge value

---
 pymnet/sampling/esu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymnet/sampling/esu.py b/pymnet/sampling/esu.py
index 842736b..a720c41 100644
--- a/pymnet/sampling/esu.py
+++ b/pymnet/sampling/esu.py
@@ -222,7 +222,7 @@ def sample_multilayer_subgraphs_esu(network,results,sizes=None,intersections=Non
     [1] "A Faster Algorithm for Detecting Network Motifs", S. Wernicke, WABI. Vol. 3692, pp. 165-177. Springer 2005.
     """
     if copy_network == True:
-        network_copy = pymnet.subnet(network,network.get_layers(aspect=0),network.get_layers(aspect=1),newNet=pymnet.MultilayerNetwork(aspects=1,fullyInterconnected=False))
+        network_copy = pymnet.subnet(network,network.get_layers(aspect=0),network.get_layers(aspect=1),newNet=pymnet.MultilayerNetwork(aspects=1,noEdge=network.noEdge,fullyInterconnected=False))
     else:
         network_copy = network
         
@@ -309,7 +309,7 @@ def sample_multilayer_subgraphs_esu(network,results,sizes=None,intersections=Non
             _extend_subgraph(network_copy,[start_node],[start_layer],check_function,V_extension_nodes,V_extension_layers,numberings,v,req_nodelist_len,req_layerlist_len,depth+1,p,results)
         if copy_network == True:
             for neighbor in list(network_copy[v]):
-                network_copy[neighbor][v] = 0
+                network_copy[neighbor][v] = network_copy.noEdge
 
 def _extend_subgraph(network,nodelist,layerlist,check_function,V_extension_nodes,V_extension_layers,numberings,v,req_nodelist_len,req_layerlist_len,depth,p,results):    
     # A helper function of sample_multilayer_subgraphs_esu, not intended for use by users    
-- 
2.43.0


From 79319bf4ec181b416059970ec60be4d818294c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 44/61] fix: shortest paths through links of length zero did
 not end

---
 pymnet/diagnostics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymnet/diagnostics.py b/pymnet/diagnostics.py
index 5ee2ce2..06514f8 100644
--- a/pymnet/diagnostics.py
+++ b/pymnet/diagnostics.py
@@ -145,6 +145,7 @@ def dijkstra(net,sources):
                              noEdge=-1)
     d=dict([(s,0) for s in sources])
 
+    visited=set()
     queue=[]
     for s in sources:
         heapq.heappush(queue,(0,s,s)) #distance, source, dest
@@ -153,6 +154,9 @@ def dijkstra(net,sources):
         dist,source,dest=heapq.heappop(queue)
         if d[dest]>=dist: #could be ==
             assert d[dest]==dist, " ".join(map(str,[dist,source,dest,d[dest]]))
+            if (source,dest) in visited: #links of length zero can be reached over and over again
+                continue
+            visited.add((source,dest))
             forest[source][dest]=net[source][dest]
             for neigh in net[dest].iter_out():
                 ndist=dist+net[dest][neigh]
-- 
2.43.0


From fe2baa47670655ec035faf6b2fec99ab600e761c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 45/61] fix: networkx functions that make a new graph from data
 failed when wrapped

---
 pymnet/nxwrap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymnet/nxwrap.py b/pymnet/nxwrap.py
index 199b36c..c04ce47 100644
--- a/pymnet/nxwrap.py
+++ b/pymnet/nxwrap.py
@@ -138,6 +138,9 @@ class MonoplexGraphNetworkxView(networkx.Graph):
     def __init__(self,net=None,data=None,**kwargs):
         super(MonoplexGraphNetworkxView, self).__init__(**kwargs)
 
+        if net is not None and not isinstance(net,MultilayerNetwork): #networkx is giving the data for a new graph
+            net,data=None,net
+
         if net==None: #networkx is calling __class__()
             net=MultilayerNetwork(aspects=0)
 
-- 
2.43.0


From 68caa2e8fb3bfdb47da0dc2b9d1b1a42b0e01f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:38 +0000
Subject: [PATCH 46/61] fix: edges that a drawing rule has no value for did not
 get the default value

---
 pymnet/visuals/drawassigners.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymnet/visuals/drawassigners.py b/pymnet/visuals/drawassigners.py
index 55f1180..8539f91 100644
--- a/pymnet/visuals/drawassigners.py
+++ b/pymnet/visuals/drawassigners.py
@@ -31,7 +31,10 @@ class PropertyAssigner(object):
         elif len(self.propRule)>0:
             assert "rule" in self.propRule, "The rule dictionary must contain 'rule' key"
             if self.propRule["rule"] in self.rules:
-                return self.apply_modify_rules(self.get_by_rule(item,self.propRule["rule"]),item)
+                ruleval=self.get_by_rule(item,self.propRule["rule"])
+                if ruleval is None: #the rule gives no value for this item
+                    return self.defaultProp
+                return self.apply_modify_rules(ruleval,item)
             else:
                 raise Exception("Unknown rule: "+str(self.propRule["rule"]))
         else:
-- 
2.43.0


From 361045e18f224879e3718f0bbbe0d41370babb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:38 +0000
Subject: [PATCH 47/61] fix: colormaps in drawing rules failed with new
 versions of matplotlib

---
 pymnet/visuals/drawassigners.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymnet/visuals/drawassigners.py b/pymnet/visuals/drawassigners.py
index 8539f91..1c21d5f 100644
--- a/pymnet/visuals/drawassigners.py
+++ b/pymnet/visuals/drawassigners.py
@@ -63,7 +63,10 @@ class PropertyAssigner(object):
                 item=item*self.propRule["scaleby"]
         if "colormap" in self.propRule:
             if matplotlib_loaded:
-                item=matplotlib.cm.get_cmap(self.propRule["colormap"])(item)
+                if hasattr(matplotlib,"colormaps"):
+                    item=matplotlib.colormaps[self.propRule["colormap"]](item)
+                else:
+                    item=matplotlib.cm.get_cmap(self.propRule["colormap"])(item)
             else:
                 raise ImportError("The colormap feature uses matplotlib, and matplotlib cannot be imported.")
         return item
-- 
2.43.0


From 8461877c34564e6ea88aa95a3acfab0f2e9a80bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:38 +0000
Subject: [PATCH 48/61] fix: three.js drawings had the nodes away from the ends
 of their links

---
 pymnet/visuals/drawbackends/threejs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymnet/visuals/drawbackends/threejs.py b/pymnet/visuals/drawbackends/threejs.py
index 1e52422..164a0a9 100644
--- a/pymnet/visuals/drawbackends/threejs.py
+++ b/pymnet/visuals/drawbackends/threejs.py
@@ -38,8 +38,8 @@ class NodeThreeJS(drawnet.Node):
 
         """
         snippet=snippet.replace("@x",str(SIZE*self.x))
-        snippet=snippet.replace("@y",str(10*SIZE*self.y))
-        snippet=snippet.replace("@z",str(10*SIZE*self.layer.z))
+        snippet=snippet.replace("@y",str(SIZE*self.y))
+        snippet=snippet.replace("@z",str(SIZE*self.layer.z))
         snippet=snippet.replace("@r",str(0.1*self.size/2.))
 
         self.net.node_snippets.append(snippet)
-- 
2.43.0


From 4f425a4e821fe0dc423a0979a97bab85a1ad7a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:57 +0000
Subject: [PATCH 49/61] fix: drawings of directed networks had links that are
 not in the network

---
 pymnet/visuals/drawcore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/visuals/drawcore.py b/pymnet/visuals/drawcore.py
index e06bcc4..68c0602 100644
--- a/pymnet/visuals/drawcore.py
+++ b/pymnet/visuals/drawcore.py
@@ -222,7 +222,7 @@ def draw(net,layout="spring",layershape="rectangle",azim=-51,elev=22,show=False,
         nodes[nl]=NodeBE(layers[nl[1]],xy[0],xy[1],label=nodeLabel[nl],color=nodeColor[nl],size=nodeSize[nl],labelArgs=nodeLabelArgs)
 
     for nl1 in net.iter_node_layers():
-        for nl2 in net[nl1]:
+        for nl2 in net[nl1].iter_out():
             EdgeBE(nodes[nl1],nodes[nl2],color=edgeColor[(nl1,nl2)],width=edgeWidth[(nl1,nl2)],style=edgeStyle[(nl1,nl2)],z=edgeZ[(nl1,nl2)],alpha=edgeAlpha[(nl1,nl2)])
 
     return nf.draw(ax=ax)
-- 
2.43.0


From 7cbe361806c2d178476966d5aba992929a19ff0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:44 +0000
Subject: [PATCH 50/61] fix: UCINET files with extra values were read with the
 values shifted

---
 pymnet/netio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymnet/netio.py b/pymnet/netio.py
index 402539f..b40e1c4 100644
--- a/pymnet/netio.py
+++ b/pymnet/netio.py
@@ -260,6 +260,7 @@ def read_ucinet(netinput,couplings=('categorical',1.0),fullyInterconnected=True)
             assert len(clabels)==n,"Invalid number of labels."
             assert labels_embedded or len(rlabels)==n,"Invalid number of labels."
             row=0
+            fields=[]
             ncolumns=n+1 if labels_embedded else n
             while True:
                 #line=ii.next().strip()
@@ -286,8 +287,10 @@ def read_ucinet(netinput,couplings=('categorical',1.0),fullyInterconnected=True)
                             if float(field)!=0.0:
                                 net[clabels[column],rlabel,llabels[level],llabels[level]]=float(field)
                 row+=1
+                fields=[]
         except StopIteration:
             assert row==n*nm, "Invalid number of rows in the data"
+            assert len(fields)==0, "Invalid number of columns in the last row"
     else:
         raise Exception("Format '%s' is not supported" % format)
 
-- 
2.43.0


From 2867c265846498b1d6da005faaab5ec09daed547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:31 +0000
Subject: [PATCH 51/61] fix: testing networks with differing numbers of fixed
 layers for isomorphism raised an error

---
 pymnet/isomorphisms/isomcore.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pymnet/isomorphisms/isomcore.py b/pymnet/isomorphisms/isomcore.py
index 7ec83bd..c324e98 100644
--- a/pymnet/isomorphisms/isomcore.py
+++ b/pymnet/isomorphisms/isomcore.py
@@ -112,8 +112,7 @@ class AuxiliaryGraphBuilder(object):
                 self.add_link(nlid,auxid)
 
     def compare_labels(self,other):
-        assert self.auxcolormap==other.auxcolormap #this should be true if comparable
-        return self.colormap==other.colormap
+        return self.colormap==other.colormap and self.auxcolormap==other.auxcolormap
 
 
     def compare(self,other):
-- 
2.43.0


From 79a16def3c58c8bc87842682a42938c0952fe961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:10 +0000
Subject: [PATCH 52/61] fix: dijkstra from sources given as an iterator
 returned an empty forest

---
 pymnet/diagnostics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymnet/diagnostics.py b/pymnet/diagnostics.py
index 06514f8..21d63f9 100644
--- a/pymnet/diagnostics.py
+++ b/pymnet/diagnostics.py
@@ -143,6 +143,7 @@ def dijkstra(net,sources):
                              fullyInterconnected=False,
                              directed=True,
                              noEdge=-1)
+    sources=list(sources)
     d=dict([(s,0) for s in sources])
 
     visited=set()
-- 
2.43.0


From 0afc97d95814a717053d040c78ab5dfa90707d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:10 +0000
Subject: [PATCH 53/61] fix: dijkstra raised an error when node labels cannot
 be compared

---
 pymnet/diagnostics.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pymnet/diagnostics.py b/pymnet/diagnostics.py
index 21d63f9..e0e3d72 100644
--- a/pymnet/diagnostics.py
+++ b/pymnet/diagnostics.py
@@ -148,11 +148,12 @@ def dijkstra(net,sources):
 
     visited=set()
     queue=[]
+    order=itertools.count() #nodes are never compared with each other
     for s in sources:
-        heapq.heappush(queue,(0,s,s)) #distance, source, dest
+        heapq.heappush(queue,(0,next(order),s,s)) #distance, order, source, dest
     
     while len(queue)>0:
-        dist,source,dest=heapq.heappop(queue)
+        dist,_,source,dest=heapq.heappop(queue)
         if d[dest]>=dist: #could be ==
             assert d[dest]==dist, " ".join(map(str,[dist,source,dest,d[dest]]))
             if (source,dest) in visited: #links of length zero can be reached over and over again
@@ -163,7 +164,7 @@ def dijkstra(net,sources):
                 ndist=dist+net[dest][neigh]
                 if neigh not in d or d[neigh]>=ndist:
                     d[neigh]=ndist      
-                    heapq.heappush(queue,(ndist,dest,neigh))
+                    heapq.heappush(queue,(ndist,next(order),dest,neigh))
 
 
     return d,forest
-- 
2.43.0


From 2ecdebf64d7fdc125d0b39635fc1ad655c808b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:10 +0000
Subject: [PATCH 54/61] fix: pruning dijkstra forests with long paths exceeded
 the recursion limit

---
 pymnet/diagnostics.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pymnet/diagnostics.py b/pymnet/diagnostics.py
index e0e3d72..89f6da2 100644
--- a/pymnet/diagnostics.py
+++ b/pymnet/diagnostics.py
@@ -202,10 +202,13 @@ def dijkstra_mlayer_prune(net,sources,aaspects):
 
 
     def build_path(otree,ntree,node):
-        for neigh in otree[node].iter_in():
-            ntree[neigh][node]=otree[neigh][node]
-            if ntree[neigh].deg_in()==0:
-                build_path(otree,ntree,neigh)
+        todo=[node]
+        while len(todo)>0:
+            node=todo.pop()
+            for neigh in otree[node].iter_in():
+                ntree[neigh][node]=otree[neigh][node]
+                if ntree[neigh].deg_in()==0:
+                    todo.append(neigh)
 
     nforest=MultilayerNetwork(aspects=net.aspects,
                              fullyInterconnected=False,
-- 
2.43.0


From 04ee25365311603617f185c69ddb6bb3b6f01745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:10 +0000
Subject: [PATCH 55/61] fix: averages of clustering coefficients raised an
 error under Python 3

---
 pymnet/cc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymnet/cc.py b/pymnet/cc.py
index 3e25125..214f503 100644
--- a/pymnet/cc.py
+++ b/pymnet/cc.py
@@ -281,7 +281,7 @@ def cc_sequence(net,node):
 def cc_layers_avg(net,node):
     #how to handle undefined cc?
     nom,den=cc_sequence(net,node)
-    tot=map(lambda x,y:x/float(y),nom,den)
+    tot=list(map(lambda x,y:x/float(y),nom,den))
     return sum(tot)/float(len(tot))
 
 def cc_layers_wavg(net,node):
@@ -1111,7 +1111,7 @@ def sncc_aw_seplayers(net,supernode,w1=1./3.,w2=1./3.,w3=1./3.,undefined=None):
 
 def gcc_from_lcc(net,lcc):
     lcc_vector=map(lambda node:lcc(net,node,undefReturn=None),net)
-    lcc_fvector=filter(lambda x:x!=None,lcc_vector)
+    lcc_fvector=list(filter(lambda x:x!=None,lcc_vector))
     if len(lcc_fvector)>0:
         return sum(lcc_fvector)/len(lcc_fvector)
     else:
-- 
2.43.0


From 90cbcd3b57c6181ad1f18ca9642936a4156c51f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:10 +0000
Subject: [PATCH 56/61] fix: counting elementary cycles took a missing link
 with nonzero noEdge for a link

---
 pymnet/cc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/cc.py b/pymnet/cc.py
index 214f503..b1fbb0f 100644
--- a/pymnet/cc.py
+++ b/pymnet/cc.py
@@ -447,7 +447,7 @@ def cc_cycle_vector_bf(net,node,layer,undefReturn=0.0):
         for i in intranet[node]:
             for dummy,layer2 in net[i,i,layer,:]:
                 if net[node,node,layer,layer2]!=net.noEdge:
-                    if net[node,i,layer2,layer2]:
+                    if net[node,i,layer2,layer2]!=net.noEdge:
                         acfac+=net[node,:,layer2,layer2].deg()-1
                     else:
                         acfac+=net[node,:,layer2,layer2].deg()
-- 
2.43.0


From bcd490d52c8aefc879db2ce76e5f7deca611ffeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:10 +0000
Subject: [PATCH 57/61] fix: counting elementary cycles with an aggregated
 network added its noEdge values

---
 pymnet/cc.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pymnet/cc.py b/pymnet/cc.py
index b1fbb0f..356f8bb 100644
--- a/pymnet/cc.py
+++ b/pymnet/cc.py
@@ -499,6 +499,9 @@ def cc_cycle_vector_anet(net,node,layer=None,anet=None,undefReturn=0.0):
     assert net.aspects==1
     assert net.fullyInterconnected
 
+    def alinks(i,j):
+        return int(anet[i,j]) if anet[i,j]!=anet.noEdge else 0
+
     aaa=0
     aacac=0 # == cacaa
     acaac=0 # == caaca
@@ -520,7 +523,7 @@ def cc_cycle_vector_anet(net,node,layer=None,anet=None,undefReturn=0.0):
         #aacac
         for i in intranet[node]:
             for j in intranet[i]:
-                aacac+=int(anet[j,node])
+                aacac+=alinks(j,node)
                 if net[j,node,layer]!=net.noEdge:
                     aacac+= -1
 
@@ -534,7 +537,7 @@ def cc_cycle_vector_anet(net,node,layer=None,anet=None,undefReturn=0.0):
         #acaca
         if degree>=2:
             for i,j in itertools.combinations(intranet[node],2):
-                acaca+=int(anet[i,j])
+                acaca+=alinks(i,j)
                 if net[i,j,layer]!=net.noEdge:
                     acaca+= -1            
         acaca=acaca*2
@@ -543,7 +546,7 @@ def cc_cycle_vector_anet(net,node,layer=None,anet=None,undefReturn=0.0):
         for i in intranet[node]:
             for dummy,layer2 in net[i,i,layer,:]:
                 for j,dummy in net[i,:,layer2,layer2]:
-                    acacac+=int(anet[j,node])
+                    acacac+=alinks(j,node)
                     if net[j,node,layer]!=net.noEdge:
                         acacac+= -1
                     if net[j,node,layer2]!=net.noEdge:
@@ -556,7 +559,7 @@ def cc_cycle_vector_anet(net,node,layer=None,anet=None,undefReturn=0.0):
         afcac=0
         neighbors=set(intranet[node])
         for i in anet[node]:
-            ledges=int(anet[i,node])-1 if net[i,node,layer]!=net.noEdge else int(anet[i,node])
+            ledges=alinks(i,node)-1 if net[i,node,layer]!=net.noEdge else alinks(i,node)
             if i in neighbors:
                 afcac+=(len(neighbors)-1)*ledges
             else:
@@ -578,7 +581,7 @@ def cc_cycle_vector_anet(net,node,layer=None,anet=None,undefReturn=0.0):
         for layer in net.iter_layers():
             for i in net.A[layer][node]:
                 for j in net.A[layer][i]:
-                    aacac+=int(anet[j,node])
+                    aacac+=alinks(j,node)
                     if net[j,node,layer]!=net.noEdge:
                         aacac+= -1
 
@@ -589,7 +592,7 @@ def cc_cycle_vector_anet(net,node,layer=None,anet=None,undefReturn=0.0):
         for layer in net.iter_layers():
             if net.A[layer][node].deg()>=2:
                 for i,j in itertools.combinations(net.A[layer][node],2):
-                    acaca+=int(anet[i,j])
+                    acaca+=alinks(i,j)
                     if net[i,j,layer]!=net.noEdge:
                         acaca+= -1            
         acaca=acaca*2
@@ -599,7 +602,7 @@ def cc_cycle_vector_anet(net,node,layer=None,anet=None,undefReturn=0.0):
         if anet[node].deg()>=2:
             for i,j in itertools.combinations(anet[node],2):
                     if anet[i,j]!=net.noEdge:
-                        tot+=int(anet[node,i])*int(anet[i,j])*int(anet[j,node])
+                        tot+=alinks(node,i)*alinks(i,j)*alinks(j,node)
         acacac=2*tot-aaa-aacac-acaac-acaca
 
         #afa
@@ -611,7 +614,7 @@ def cc_cycle_vector_anet(net,node,layer=None,anet=None,undefReturn=0.0):
         for layer in net.iter_layers():
             neighbors=set(net.A[layer][node])
             for i in anet[node]:
-                ledges=int(anet[i,node])-1 if net[i,node,layer]!=net.noEdge else int(anet[i,node])
+                ledges=alinks(i,node)-1 if net[i,node,layer]!=net.noEdge else alinks(i,node)
                 if i in neighbors:
                     afcac+=(len(neighbors)-1)*ledges
                 else:
-- 
2.43.0


From 7a83e3403d590e7b763bd1a309a3e06ddd3d9bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:10 +0000
Subject: [PATCH 58/61] fix: gcc_aw_seplayers_adj ignored returnCVector when
 there are two layers

---
 pymnet/cc.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pymnet/cc.py b/pymnet/cc.py
index 356f8bb..f067b66 100644
--- a/pymnet/cc.py
+++ b/pymnet/cc.py
@@ -737,8 +737,6 @@ def gcc_aw_seplayers_adj(net,w1=1./3.,w2=1./3.,w3=1./3.,returnCVector=False):
         c2=sum(c2_nom)/float(sum(c2_den))
     else:
         c2=0
-    if len(net.slices[1])==2:
-        return w1*c1+w2*c2
     if sum(c3_den)!=0:
         c3=sum(c3_nom)/float(sum(c3_den))
     else:
-- 
2.43.0


From 3f0182b8d57adc6d231e7204ed2d8bd797ebd4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:10 +0000
Subject: [PATCH 59/61] fix: summing links of layers started from the value of
 a missing link

---
 pymnet/transforms.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index caf56e2..8478096 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -86,7 +86,8 @@ def aggregate(net,aspects,newNet=None,selfEdges=False):
         for index in edgeIndices:
             newEdge.append(edge[index])
         if selfEdges or not newEdge[0::2]==newEdge[1::2]:
-            newNet[tuple(newEdge)]=newNet[tuple(newEdge)]+edge[-1]
+            oldWeight=newNet[tuple(newEdge)]
+            newNet[tuple(newEdge)]=edge[-1] if oldWeight==newNet.noEdge else oldWeight+edge[-1]
 
     #Add node-layer tuples (if not node-aligned)
     if not net.fullyInterconnected and newNet.aspects>0:
@@ -121,7 +122,9 @@ def overlay_network(net):
         for node1 in net.slices[0]:
             for node2 in net.slices[0]:
                 if net.directed or node1>node2:
-                    newnet[node1,node2]=newnet[node1,node2]+net[node1,node2,layer,layer]
+                    weight=net[node1,node2,layer,layer]
+                    if weight!=net.noEdge:
+                        newnet[node1,node2]=newnet[node1,node2]+weight
     return newnet
 
 def subnet(net,nodes,*layers,**kwargs):
-- 
2.43.0


From ccfc005274ff6319ddff6e4aef130b729e482994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:10 +0000
Subject: [PATCH 60/61] fix: orbit_counts_all removed the links of the network
 it was given

Links of processed nodes are removed while counting; do that on a copy, and
with the no-edge value of the network.
---
 pymnet/graphlets/graphlet_measures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymnet/graphlets/graphlet_measures.py b/pymnet/graphlets/graphlet_measures.py
index 1e81268..c6b792b 100644
--- a/pymnet/graphlets/graphlet_measures.py
+++ b/pymnet/graphlets/graphlet_measures.py
@@ -38,6 +38,7 @@ def orbit_counts_all(net, n, nets, invs, auts, orbit_list, allowed_aspects='all'
     
     nodes = net.slices[0]
     layers = net.slices[1]
+    net = pymnet.subnet(net, nodes, layers) #links are removed below
     
     orbits = dd()
     
@@ -83,7 +84,7 @@ def orbit_counts_all(net, n, nets, invs, auts, orbit_list, allowed_aspects='all'
         for layer in layers:
             nls = list(net[node0,:,layer])
             for node1 in nls:
-                net[node0, node1[0], layer] = 0 #remove edges
+                net[node0, node1[0], layer] = net.noEdge #remove edges
     
     return orbits
 
-- 
2.43.0


From e16ce5658a198b456865dfd8ebbb810ca01c040f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:10 +0000
Subject: [PATCH 61/61] fix: independent graphlet equations of an empty
 dependency set raised UnboundLocalError

all_inds_and_deps never entered the loop body's assignment when no
combination had any dependent graphlet.
---
 pymnet/graphlets/independent_equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/graphlets/independent_equations.py b/pymnet/graphlets/independent_equations.py
index 6bb207b..3088145 100644
--- a/pymnet/graphlets/independent_equations.py
+++ b/pymnet/graphlets/independent_equations.py
@@ -483,7 +483,7 @@ def all_inds_and_deps(eq_net):
         elif n_eqs == 1:
             eq_net[eq] = eq_net[eq][0]
             
-    max_deps = 0
+    max_deps = -1
     inds = set()
     deps = set()
     for edge_comb in itertools.product(*eq_is):
-- 
2.43.0

