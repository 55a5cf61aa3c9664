From b37494bcb148190b541cb5a4816bdd148c9835ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:44 +0000
Subject: [PATCH 01/57] fix: writing a block of M that overlaps its mirror
 keeps the written values

Setters such as set_Mxxl first wrote the block, then wrote back the mirrored
block as it was before the call, which restored the old entries wherever the
two blocks overlap.
---
 pyphs/core/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyphs/core/core.py b/pyphs/core/core.py
index 912a404..35e0dfd 100644
--- a/pyphs/core/core.py
+++ b/pyphs/core/core.py
@@ -1271,11 +1271,11 @@ add the connector'.format(i)
                 Mba = Jba - R.T
             if name == 'M':
                 Mab = types.matrix_types[0](mat)
-                Mba = getattr(self, 'M'+varj + vari)()
             debi, endi = getattr(self.inds, vari)()
             debj, endj = getattr(self.inds, varj)()
             self.M[debi:endi, debj:endj] = types.matrix_types[0](Mab)
-            if vari != varj:
+            # the mirrored block of M is free (only J and R are constrained)
+            if vari != varj and name != 'M':
                 self.M[debj:endj, debi:endi] = types.matrix_types[0](Mba)
         set_mat.__doc__ = """
         =========
-- 
2.43.0


From 816fb16322eae63743488fa7b83976eaea9c3072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:44 +0000
Subject: [PATCH 02/57] fix: Core.output() includes the contribution of the
 connectors

The documented expression has the term Mycy.cu, which was not computed.
---
 pyphs/core/structure/output.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyphs/core/structure/output.py b/pyphs/core/structure/output.py
index d1e1182..47be5f3 100644
--- a/pyphs/core/structure/output.py
+++ b/pyphs/core/structure/output.py
@@ -43,7 +43,12 @@ y: list
         else:
             Vyw = types.matrix_types[0](sympy.zeros(core.dims.y(), 1))
 
-        out = list(Vyx + Vyw + Vyu)
+        if core.dims.cy() > 0:  # Check if system has connectors
+            Vycy = types.matrix_types[0](core.Mycy()*types.matrix_types[0](core.cu))
+        else:
+            Vycy = types.matrix_types[0](sympy.zeros(core.dims.y(), 1))
+
+        out = list(Vyx + Vyw + Vyu + Vycy)
 
     else:
         out = types.matrix_types[0](list(list()))
-- 
2.43.0


From ab27307c0c03b62793ad6deda533b1943dd5dba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:33 +0000
Subject: [PATCH 03/57] fix: a component coupled with a nonlinear one is not
 linear

linear_nonlinear only looked at the column of each component, so that for
instance z = [2*wa+wb, wb**3-wa] had wa declared linear with Zl = [2], and
reduce_z or the split of the numerical method lost the coupling terms. The
same holds for H = xa**2/2+xa*xb+xb**4.
---
 pyphs/core/structure/splits.py | 38 ++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/pyphs/core/structure/splits.py b/pyphs/core/structure/splits.py
index 1e9beaf..5fca418 100644
--- a/pyphs/core/structure/splits.py
+++ b/pyphs/core/structure/splits.py
@@ -44,6 +44,38 @@ def monovar_multivar(core):
 
 
 # ============================ linear_nonlinear ============================== #
+def coupled(mat, inds):
+    """
+    Return the sorted list of indices that are coupled with the indices inds
+    (included), directly or not, by the nonzero elements of square matrix mat.
+    """
+    group = set(inds)
+    size = 0
+    while len(group) > size:
+        size = len(group)
+        for i in range(mat.shape[0]):
+            for j in range(mat.shape[1]):
+                if mat[i, j] != 0 and (i in group or j in group):
+                    group.update((i, j))
+    return sorted(group)
+
+
+def coupled_entries(mat, ind):
+    """
+    Return the list of elements of square matrix mat in the columns coupled
+    with index ind: a component is linear only if it is not coupled with a
+    nonlinear component.
+    """
+    return [elt for j in coupled(mat, [ind]) for elt in mat[:, j]]
+
+
+def column_entries(mat, ind):
+    """
+    Return the list of elements in column ind of matrix mat.
+    """
+    return list(mat[:, ind])
+
+
 def linear_nonlinear(core, criterion=None):
     """
     1. Detect the number of linear storage component (_nxl) and of linear
@@ -68,8 +100,10 @@ def linear_nonlinear(core, criterion=None):
         mats = (hessian(core.H, core.x), jacobian(core.z, core.w))
         criterion = list(zip(mats, args))
         movefunc = movesquarematrixcolnrow
+        getfunc = coupled_entries
     else:
         movefunc = movematrixcols
+        getfunc = column_entries
 
     # split storage part
     nxl = 0
@@ -77,7 +111,7 @@ def linear_nonlinear(core, criterion=None):
     arg = criterion[0][1]
     for _ in range(hess.shape[1]):
         # hess_row = list(hess[nxl, :].T)
-        hess_col = list(hess[:, nxl])
+        hess_col = getfunc(hess, nxl)
         # collect line symbols
         symbs = free_symbols(hess_col)
         # if symbols are not states
@@ -95,7 +129,7 @@ def linear_nonlinear(core, criterion=None):
     arg = criterion[1][1]
     for _ in range(jacz.shape[1]):
         # jacz_row = list(jacz[nwl, :].T)
-        jacz_col = list(jacz[:, nwl])
+        jacz_col = getfunc(jacz, nwl)
         # collect line symbols
         symbs = free_symbols(jacz_col)
         # if symbols are not dissipation variables
-- 
2.43.0


From 7fb3546814d4893e4075cb5b31fd6c23e387f346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:36 +0000
Subject: [PATCH 04/57] fix: reduce_z keeps the dissipations listed in
 force_wnl

The kept-apart components were moved out of the linear part one index too far,
which emptied Zl and raised a shape error, and nonlinear components in the list
were counted as linear ones, so that linear components were not absorbed.
---
 pyphs/core/structure/R.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pyphs/core/structure/R.py b/pyphs/core/structure/R.py
index 7fe52f1..8d89db2 100644
--- a/pyphs/core/structure/R.py
+++ b/pyphs/core/structure/R.py
@@ -8,7 +8,8 @@ from __future__ import absolute_import, division, print_function
 import sympy
 from pyphs.misc.tools import geteval
 from pyphs.core.tools import types
-from pyphs.core.maths import inverse
+from pyphs.core.maths import inverse, jacobian
+from .splits import coupled
 
 
 def reduce_z(core):
@@ -42,20 +43,19 @@ after this operation, and :code:`core.z()=core.znl()`.
 """
     # identify the linear components
     core.linear_nonlinear()
-    # identify the number of components excluded from the linear part
-    nforced = len(core.force_wnl)
+    # identify the linear components excluded from the linear part, with
+    # those their laws are coupled with
+    forced = [core.w[i] for i in coupled(core.Zl,
+                                         [i for i, w in enumerate(core.wl())
+                                          if w in core.force_wnl])]
     # move linear and excluded components at the top of linear components list
-    if not nforced == 0:
-        i = 0
-        for _ in range(core.dims.wl()):
-            if core.w[i] in core.force_wnl:
-                core.move_dissipative(i, core.dims.wl())
-            else:
-                i += 1
+    if not len(forced) == 0:
+        for w in forced:
+            core.move_dissipative(core.w.index(w), core.dims.wl()-1)
         # reduce number of linear components
-        core.dims._wl -= nforced
+        core.dims._wl -= len(forced)
         # reduce Zl
-        core.Zl = core.Zl[:-nforced, :-nforced]
+        core.Zl = jacobian(core.zl(), core.wl())
     # build inverse of Dl
     iDl = types.matrix_types[0](sympy.eye(core.dims.wl())-core.Mwlwl()*core.Zl)
     # build Dl
-- 
2.43.0


From 41df6b9f32d444f52140755fc31036a44dad45c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:25 +0000
Subject: [PATCH 05/57] fix: sign of the connection in the documentation of
 add_connector

connect(), the gyrators and the transformers all use u0=-alpha*y1, u1=alpha*y0.
---
 pyphs/core/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyphs/core/core.py b/pyphs/core/core.py
index 35e0dfd..3bd20da 100644
--- a/pyphs/core/core.py
+++ b/pyphs/core/core.py
@@ -769,8 +769,8 @@ class Core:
         Description
         -----------
         The resulting connection reads:
-            * :code:`core.u[indices[0]] = alpha * core.y[indices[1]]`,
-            * :code:`core.u[indices[1]] = -alpha * core.y[indices[0]]`.
+            * :code:`core.u[indices[0]] = -alpha * core.y[indices[1]]`,
+            * :code:`core.u[indices[1]] = alpha * core.y[indices[0]]`.
 
         Notice this method only stores a description of the connection in the
         :code:`core.connectors` argument. The connection will be effective only
-- 
2.43.0


From 63f5c76897ecb2fb7e7bea85ada0c9f1bc336c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:25 +0000
Subject: [PATCH 06/57] fix: inverse() returned nan for some regular or
 singular matrices

The default sympy method for sparse matrices is an LDL decomposition without
pivoting: an invertible symmetric matrix with a zero leading minor gave nan
entries, and a singular matrix gave nan instead of an error, so that
Core.connect() silently produced a structure filled with nan.
---
 pyphs/core/maths/_matrices.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyphs/core/maths/_matrices.py b/pyphs/core/maths/_matrices.py
index 1c4914a..58d4b40 100644
--- a/pyphs/core/maths/_matrices.py
+++ b/pyphs/core/maths/_matrices.py
@@ -7,7 +7,7 @@ Created on Mon May 15 20:19:21 2017
 """
 
 from ..tools import types, simplify
-from sympy import Matrix
+from sympy import Matrix, nan, oo, zoo
 
 
 def inverse(Mat, dosimplify=False):
@@ -18,6 +18,10 @@ def inverse(Mat, dosimplify=False):
         return Mat
     else:
         iMat = Mat.inv()
+        if iMat.has(nan, zoo, oo, -oo):
+            # the LDL decomposition of sympy does not pivot: use elimination,
+            # which raises a ValueError if the matrix is not invertible
+            iMat = types.matrix_types[0](Matrix(Mat).inv(method='GE'))
         if dosimplify:
             iMat = simplify(iMat)
         return iMat
-- 
2.43.0


From c1634db467a4a5b02b759b4d3438c435b292c130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:33 +0000
Subject: [PATCH 07/57] fix: copies and sums of cores do not share the
 connectors

The dictionaries in core.connectors were shared: changing the gain of a
connector in a copy changed it in the original.
---
 pyphs/core/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyphs/core/core.py b/pyphs/core/core.py
index 3bd20da..15ad3fb 100644
--- a/pyphs/core/core.py
+++ b/pyphs/core/core.py
@@ -300,6 +300,8 @@ class Core:
                 setattr(target, attr_name, attr.copy())
             except AttributeError:
                 setattr(target, attr_name, copy.copy(attr))
+        # connectors are dictionaries: not shared with the copy
+        core.connectors = copy.deepcopy(self.connectors)
         core.label = copy.copy(self.label)
         return core
 
@@ -352,7 +354,7 @@ class Core:
         # Concatenate lists of expressions
         core.setexpr('z', core1.z + core2.z)
 
-        core.connectors = core1.connectors + core2.connectors
+        core.connectors = copy.deepcopy(core1.connectors + core2.connectors)
         core.force_wnl = core1.force_wnl + core2.force_wnl
 
         for vari in core.dims.names:
-- 
2.43.0


From 08a30cb29477aa404443e8baf06a8e82f13cd26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:33 +0000
Subject: [PATCH 08/57] fix: Core.load() restores the attributes defined with
 setexpr and setsymb

The list of attributes to read was that of the core before the load, so that
the expressions and symbols added to the saved core were lost.
---
 pyphs/core/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyphs/core/core.py b/pyphs/core/core.py
index 15ad3fb..b88c077 100644
--- a/pyphs/core/core.py
+++ b/pyphs/core/core.py
@@ -261,8 +261,8 @@ class Core:
 
         for name in (list(set().union(
                           self.attrstocopy,
-                          self.exprs_names,
-                          self.symbs_names))):
+                          dico['exprs_names'],
+                          dico['symbs_names']))):
             if isinstance(name, str):
                 target = self
                 attr_name = name
-- 
2.43.0


From dfc65e6843e4de137381eadffc91cc1349a64d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:18 +0000
Subject: [PATCH 09/57] fix: Core.substitute does not change the dictionary
 given as argument

With selfall or selfexprs, the substitutions of the core were written in the
dictionary of the caller.
---
 pyphs/core/tools/_substitutions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyphs/core/tools/_substitutions.py b/pyphs/core/tools/_substitutions.py
index 5f0ce56..33ff5d4 100644
--- a/pyphs/core/tools/_substitutions.py
+++ b/pyphs/core/tools/_substitutions.py
@@ -189,6 +189,8 @@ def substitute_core(core, subs=None, selfall=False, selfexprs=False,
     # init substitution dic
     if subs is None:
         subs = {}
+    # do not change the argument
+    subs = dict(subs)
 
     # append self subs dic
     if selfall:
-- 
2.43.0


From 6d792b8bf2ef7e71296190934ff2f336dfa14cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:18 +0000
Subject: [PATCH 10/57] fix: nested definitions in Core.substitute

With core.subs={a: b+1, b: 2*c, c: 3.}, an expression of a was substituted by
b+1 and the definition of b was dropped, leaving b without a value. The
documentation states that substitutions are applied recursively.
---
 pyphs/core/tools/_substitutions.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyphs/core/tools/_substitutions.py b/pyphs/core/tools/_substitutions.py
index 33ff5d4..425edd0 100644
--- a/pyphs/core/tools/_substitutions.py
+++ b/pyphs/core/tools/_substitutions.py
@@ -200,6 +200,13 @@ def substitute_core(core, subs=None, selfall=False, selfexprs=False,
     elif selfexprs:
         subs.update(core.subsexprs)
 
+    # recursive substitutions in the dictionary itself
+    for _ in range(len(subs)):
+        for k, v in subs.items():
+            keys = getattr(v, 'free_symbols', set()).intersection(subs) - {k}
+            if keys:
+                subs[k] = substitute_scalar(v, {s: subs[s] for s in keys})
+
     # substitutions in core's own subsitution dictionary
     core.subs = substitute_dict(core.subs, subs)
 
-- 
2.43.0


From f557c6d568571e1108d8f178d5535cb3bd1aa6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:18 +0000
Subject: [PATCH 11/57] fix: Core.substitute applies to the gains of the
 connectors

The definition of a parameter was removed from core.subs while the gain of a
connector still used it.
---
 pyphs/core/tools/_substitutions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyphs/core/tools/_substitutions.py b/pyphs/core/tools/_substitutions.py
index 425edd0..34578e9 100644
--- a/pyphs/core/tools/_substitutions.py
+++ b/pyphs/core/tools/_substitutions.py
@@ -227,6 +227,10 @@ def substitute_core(core, subs=None, selfall=False, selfexprs=False,
             if simplify:
                 expr = simplify_func(expr)
 
+    # substitutions in the gains of connectors
+    for connector in core.connectors:
+        connector['alpha'] = substitute_scalar(connector['alpha'], subs)
+
     # remove entries in core.subs
     for k in subs.keys():
         try:
-- 
2.43.0


From d031220333290a89d302e0a66f27425adf38ec2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:18 +0000
Subject: [PATCH 12/57] fix: Core.freesymbols() always returned an empty set

---
 pyphs/core/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyphs/core/core.py b/pyphs/core/core.py
index b88c077..cfc8903 100644
--- a/pyphs/core/core.py
+++ b/pyphs/core/core.py
@@ -533,8 +533,8 @@ class Core:
         symbs = set()
         for name in self.exprs_names:
             expr = geteval(self, name)
-            symbs.union(free_symbols(expr))
-        symbs.union(free_symbols(self.M))
+            symbs.update(free_symbols(expr))
+        symbs.update(free_symbols(self.M))
         return symbs
 
     def dxH(self):
-- 
2.43.0


From caa95e7b39461cb3e32c370a3d89e35a08bfdfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:25 +0000
Subject: [PATCH 13/57] fix: the realizability analysis skipped indeterminate
 nodes

The list of indeterminate nodes was modified while iterated over, so that
the loop could stop and a realizable graph be refused (CanNotUnlock),
depending on the order of nodes.
---
 pyphs/graphs/analysis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyphs/graphs/analysis.py b/pyphs/graphs/analysis.py
index 059c3eb..e5a469e 100644
--- a/pyphs/graphs/analysis.py
+++ b/pyphs/graphs/analysis.py
@@ -164,8 +164,9 @@ Iteration over the list `graph.analysis.ic_edges` of a given graph.
 Iteration over the list `graph.analysis.ic_nodes` of indeterminate nodes.
 First, it is checked that the correponding row of matrix graph.analysis.la
         """
-        # iterate over indeterminate nodes
-        for n in self.ic_nodes:
+        # iterate over (a copy of) the indeterminate nodes, since the list
+        # changes over iteration
+        for n in list(self.ic_nodes):
             # assert the potential on node n can be defined
             if self.Lambda[n, :].sum() == 0:
                 raise UndefinedPotential(self.nodes[n])
-- 
2.43.0


From c9ceae94e9081d5a13cc14be5b091019616303d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:25 +0000
Subject: [PATCH 14/57] fix: unlock the realizability analysis with an edge
 that is not needed

The edge selected as effort-controlled could be the only one left to define
the potential of a node, so that realizable graphs were refused.
---
 pyphs/graphs/analysis.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyphs/graphs/analysis.py b/pyphs/graphs/analysis.py
index e5a469e..147d0b1 100644
--- a/pyphs/graphs/analysis.py
+++ b/pyphs/graphs/analysis.py
@@ -247,6 +247,15 @@ in lambda corresponding to two indeterminate control edges are the same, we
 select the first edge which is not a conector (transformer or gyrator) and
 define it as effort-controlled (0 column in lambda).
         """
+        # select an edge such that the remaining edges still connect every node
+        for e in self.ic_edges:
+            if self.get_edge_data(e, 'type') != 'connector':
+                others = [i for i in self.ic_edges if i != e] + self.fc_edges
+                rank = numpy.linalg.matrix_rank(self.Gamma[1:, others])
+                if rank == self.nn - 1:
+                    self.set_edge_ec(e)
+                    self.verbose('unlock')
+                    return
         still_locked = True
         # for each row in block matrix extracted from the ic colums of Lambda
         for n, row in enumerate(self.Lambda[:, self.ic_edges].tolist()):
-- 
2.43.0


From 1af711173f5fb6c8570b83fc6962a7a351d33e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:24 +0000
Subject: [PATCH 15/57] fix: gain of transformers and gyrators depends on the
 control of their edges

The gain alpha of a transformer was used as is when its first edge is
flux-controlled (instead of -1/alpha), and that of a gyrator was 1/alpha
instead of -1/alpha when effort-controlled, so that the relations stated in
their documentation did not hold. It was also stored in the graph, so that a
second call to Graph.to_core() used the inverse of the inverse.
---
 pyphs/graphs/analysis.py | 10 ----------
 pyphs/graphs/build.py    |  8 ++++++++
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/pyphs/graphs/analysis.py b/pyphs/graphs/analysis.py
index 147d0b1..220c4d7 100644
--- a/pyphs/graphs/analysis.py
+++ b/pyphs/graphs/analysis.py
@@ -448,7 +448,6 @@ and the realizability of linked edge is chosen based on the connector type \
         if ctrl is 'e':
             # gyrator case
             if self.get_edge_data(e, 'connector_type') == 'gyrator':
-                self.inverse_alpha(e)
                 # assert linked edge is not flux controlled
                 assert link_e not in self.fc_edges,\
                     'connector edges {0!s} and {1!s} are not \
@@ -459,7 +458,6 @@ compatible'.format(e_label, link_e_label)
                     self.set_edge_ec(link_e)
             # transformer case
             elif self.get_edge_data(e, 'connector_type') == 'transformer':
-#                self.inverse_alpha(e)
                 # assert linked edge is not effort controlled
                 assert link_e not in self.ec_edges,\
                     'connector edges {0!s} and {1!s} are not \
@@ -494,14 +492,6 @@ compatible'.format(e_label, link_e_label)
             print('link', e_label, ctrl, link_e_label)
             self.verbose('link')
 
-    def inverse_alpha(self, e, minus=False):
-        alpha = self.edges[e][2]['alpha']
-        if alpha is not None:
-            a = alpha**-1
-            if minus:
-                a = -a
-            self.edges[e][2]['alpha'] = a
-
 
 def isequal(M1, M2):
     """
diff --git a/pyphs/graphs/build.py b/pyphs/graphs/build.py
index 260c633..bf9de43 100644
--- a/pyphs/graphs/build.py
+++ b/pyphs/graphs/build.py
@@ -95,6 +95,14 @@ def _setCore(graph):
                                 for c in graph.core.connectors].index(True)
         alpha = graph.analysis.get_edge_data(e, 'alpha')
         if alpha is not None:
+            # the inputs of a connector are (flux, effort) for a transformer
+            # and (effort, effort) for a gyrator, the other way around when
+            # the control of its first edge is the opposite
+            dual = (graph.analysis.ec_edges
+                    if graph.analysis.get_edge_data(e, 'connector_type') ==
+                    'gyrator' else graph.analysis.fc_edges)
+            if e in dual:
+                alpha = -alpha**-1
             graph.core.connectors[index_e_in_connector]['alpha'] = alpha
     graph.core.cy = [graph.core.cy[el] for el in new_indices_connector]
     graph.core.cu = [graph.core.cu[el] for el in new_indices_connector]
-- 
2.43.0


From 3d71574bf6dd2fcfe1aba02818150b972fe005ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:45 +0000
Subject: [PATCH 16/57] fix: endless loop for graphs with a loop attached to a
 single node

The serial connection that starts and stops at the same node was replaced by
an edge from this node to itself, which was then found parallel to every edge
of the node, for ever.
---
 pyphs/graphs/tools.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyphs/graphs/tools.py b/pyphs/graphs/tools.py
index 75e17a9..b16f029 100644
--- a/pyphs/graphs/tools.py
+++ b/pyphs/graphs/tools.py
@@ -79,8 +79,6 @@ def serial_edges(graph):
     # init lists
     serial_nodes = list()
     all_edges = list()
-    # Check for datum termination
-    datum_end = False
     # for each node with degree 2 in the graph
     for node in g.nodes():
 
@@ -94,12 +92,12 @@ def serial_edges(graph):
 
             # continue the serial connection toward n1
             s1 = serial_next(g, node, n1)
-            datum_end = s1[-1] == datum
             s1.reverse()
 
             # continue the serial connection toward n2
             s2 = serial_next(g, node, n2)
-            if s2[-1] == datum and datum_end:
+            # the two ends of a serial connection are distinct nodes
+            if s2[-1] == s1[0]:
                 s2 = s2[:-1]
 
             # nodes in the serial connection
-- 
2.43.0


From cc25e8de98daa4b0afba303cc01b4d2f379b2915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:47 +0000
Subject: [PATCH 17/57] fix: endless realizability analysis of some graphs that
 can not be realized

The unlock could change nothing, for ever: raise CanNotUnlock.
---
 pyphs/graphs/analysis.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pyphs/graphs/analysis.py b/pyphs/graphs/analysis.py
index 220c4d7..3ac977f 100644
--- a/pyphs/graphs/analysis.py
+++ b/pyphs/graphs/analysis.py
@@ -213,12 +213,23 @@ Execute an iteration over the lists:
             # iterate on indeterminate edges
             self.iterate_ic()
 
+    def _left(self):
+        """
+        Measure of what is left to analyze (decreases over the analysis).
+        """
+        return self.Lambda.sum() + len(self.ic_edges) + len(self.ic_nodes)
+
     def perform(self):
         """
         Process realizability analysis.
         """
         # realizability analysis on the ic_edges
+        left = None
         while (len(self.ic_edges) + len(self.ic_nodes) > 0):
+            # stop if neither the iteration nor the unlock change anything
+            if left == self._left():
+                raise CanNotUnlock
+            left = self._left()
             self.iteration()
             # if locked, perform unlock
             if isequal(self.Lambda_temp, self.Lambda) & \
-- 
2.43.0


From f166d6a7a14c63c3c8c0cdbe13860457c1a66f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:28 +0000
Subject: [PATCH 18/57] fix: merge of all the components of a serial connection

The edges of the removed nodes were rebuilt without their data (KeyError
'type') when a serial connection was merged into a single component.
---
 pyphs/graphs/subgraph.py | 42 ++++++++++++----------------------------
 1 file changed, 12 insertions(+), 30 deletions(-)

diff --git a/pyphs/graphs/subgraph.py b/pyphs/graphs/subgraph.py
index 42167c2..35ab0d0 100644
--- a/pyphs/graphs/subgraph.py
+++ b/pyphs/graphs/subgraph.py
@@ -13,7 +13,6 @@ import warnings
 from .tools import serial_next
 from networkx import Graph as nwxGraph
 from networkx import chain_decomposition
-from networkx import contracted_nodes
 import copy
 
 
@@ -670,39 +669,22 @@ determined\n{}'.format(e))
             if not ((n1, n2) in preserve_nodes or
                     (n2, n1) in preserve_nodes):
 
-                # new undirected graph
-                undirected = nwxGraph(self)
-
                 if n1 in self.terminals:
-                    del_node, connect_node1 = n2, n1
-                    connect_node2 = list(undirected.neighbors(del_node))[0]
+                    del_node, connect_node = n2, n1
                 else:
-                    del_node, connect_node1 = n1, n2
-                    connect_node2 = list(undirected.neighbors(del_node))[0]
-
-                # Add edge with new node
-                contracted_edges = contracted_nodes(self,
-                                                    connect_node1,
-                                                    del_node,
-                                                    self_loops=False).edges
-                self.add_edges_from(contracted_edges)
-                # Get edge key
-                edge = self.nodes2edge(del_node, connect_node2)
-                n1, n2 = edge[:2]
-                for key in self[n1][n2].keys():
-                    if self[n1][n2][key]['label'] == e[-1]['label']:
-                        break
-                data = edge[2]
-                # Actually remove edge
-                self.remove_edge(n1, n2, key)
-
-                edge = self.nodes2edge(connect_node1, connect_node2)
-                n1, n2 = edge[:2]
-                for k in data:
-                    self[n1][n2][0][k] = data[k]
+                    del_node, connect_node = n1, n2
 
                 # store new node label
-                new_nodes[del_node] = connect_node1
+                for n in new_nodes:
+                    if new_nodes[n] == del_node:
+                        new_nodes[n] = connect_node
+
+                # Move every edge of the deleted node
+                for m1, m2, key, data in list(self.edges(keys=True,
+                                                         data=True)):
+                    if del_node in (m1, m2):
+                        self.remove_edge(m1, m2, key)
+                        self.add_edge(new_nodes[m1], new_nodes[m2], **data)
 
             self.remove_orphan_nodes()
 
-- 
2.43.0


From 0244484d90d124bed60b52886f2cbc4246f3e3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:09 +0000
Subject: [PATCH 19/57] fix: merge in a serial connection that contains a
 parallel one

The edges of the inner connection kept the node that the merge removes, so
that the circuit was silently cut there.
---
 pyphs/graphs/subgraph.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/pyphs/graphs/subgraph.py b/pyphs/graphs/subgraph.py
index 35ab0d0..5921411 100644
--- a/pyphs/graphs/subgraph.py
+++ b/pyphs/graphs/subgraph.py
@@ -497,6 +497,21 @@ class SubGraph(Graph):
     def z_arc(self):
         return getattr(self, 'z_{0}c'.format(self.anti_realizability))
 
+    def rename_node(self, old, new):
+        """
+        Move every edge of node old to node new, including in the subgraphs.
+        """
+        for n1, n2, key, data in list(self.edges(keys=True, data=True)):
+            if old in (n1, n2):
+                self.remove_edge(n1, n2, key)
+                n1, n2 = [new if n == old else n for n in (n1, n2)]
+                if n1 != n2:
+                    self.add_edge(n1, n2, **data)
+                if data['type'] == 'graph':
+                    data['graph'].rename_node(old, new)
+        self._terminals = tuple(new if n == old else n
+                                for n in self._terminals)
+
 #    def set_orientation_reference(self, orientation):
 #        if not hasattr(self, '_orientation'):
 #            self._orientation = orientation
@@ -680,11 +695,7 @@ determined\n{}'.format(e))
                         new_nodes[n] = connect_node
 
                 # Move every edge of the deleted node
-                for m1, m2, key, data in list(self.edges(keys=True,
-                                                         data=True)):
-                    if del_node in (m1, m2):
-                        self.remove_edge(m1, m2, key)
-                        self.add_edge(new_nodes[m1], new_nodes[m2], **data)
+                self.rename_node(del_node, connect_node)
 
             self.remove_orphan_nodes()
 
-- 
2.43.0


From 059655b9d72386725a4da64e542c3774fbba017e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:23 +0000
Subject: [PATCH 20/57] fix: coefficients of the linear part follow the moves
 inside the parts

---
 pyphs/core/structure/moves.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyphs/core/structure/moves.py b/pyphs/core/structure/moves.py
index 88061ba..8126d5a 100644
--- a/pyphs/core/structure/moves.py
+++ b/pyphs/core/structure/moves.py
@@ -96,6 +96,11 @@ def move_stor(core, indi, indf):
     core.x = [core.x[el] for el in new_indices]
     if core._dxH is not None:
         core._dxH = [core._dxH[el] for el in new_indices]
+
+    # coefficients of the linear part
+    if max(indi, indf) < core.dims.xl():
+        core.Q = movesquarematrixcolnrow(core.Q, indi, indf)
+        core.bl = [core.bl[el] for el in new_indices[:core.dims.xl()]]
     moveCoreMcolnrow(core, indi, indf)
 
 
@@ -119,7 +124,8 @@ def move_diss(core, indi, indf):
             indi < core.dims.wl() and
             indf < core.dims.wl()):
         core.Zl = movesquarematrixcolnrow(core.Zl, indi, indf)
-    elif (not core.Zl.is_zero):
+    elif (not core.Zl.is_zero and
+            min(indi, indf) < core.dims.wl()):
         core.Zl = core.Zl[:0, :0]  # Set Matrix to zero
 
 
-- 
2.43.0


From 9eb7b266997588b4abe54efdbc2dc8cce5f95aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:22 +0000
Subject: [PATCH 21/57] fix: the scheme of a split method is built once

---
 pyphs/numerics/numerical_method/_method.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pyphs/numerics/numerical_method/_method.py b/pyphs/numerics/numerical_method/_method.py
index 9195922..87e555f 100644
--- a/pyphs/numerics/numerical_method/_method.py
+++ b/pyphs/numerics/numerical_method/_method.py
@@ -153,11 +153,8 @@ class Method(Core):
             self.explicit_implicit()
             if VERBOSE >= 2:
                 print('    Re-Build numerical structure...')
-            # build the discrete evaluation for the gradient
-            build_gradient_evaluation(self)
-            # build the discrete evaluation for the structure
-            build_structure_evaluation(self)
-            # build method updates
+            # the discrete evaluations of the gradient and of the structure
+            # have moved with the components: only build method updates
             set_structure(self)
 
         if VERBOSE >= 2:
-- 
2.43.0


From d4c2e07429841d2711fbcfa85d14ffe2c3302e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:22 +0000
Subject: [PATCH 22/57] fix: evaluation of the gradient symbols in the
 structure of a method

---
 pyphs/numerics/numerical_method/_method.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pyphs/numerics/numerical_method/_method.py b/pyphs/numerics/numerical_method/_method.py
index 87e555f..71f2e26 100644
--- a/pyphs/numerics/numerical_method/_method.py
+++ b/pyphs/numerics/numerical_method/_method.py
@@ -751,19 +751,21 @@ def build_structure_evaluation(method):
     # substitutions associated with the chosen numerical method
     subs = {}
 
-    # build substitutions associated with the gradient evaluation
+    # build substitutions associated with the gradient evaluation (not affected
+    # by the evaluation of the structure below)
+    subs_g = {}
     for i, (gi, gi_discret) in enumerate(zip(method.g(), method.dxH())):
-        subs[gi] = gi_discret
+        subs_g[gi] = gi_discret
 
     # if theta is a numeric => theta scheme
     if isinstance(theta, (int, float)):
         for i, (xi, dxi) in enumerate(zip(method.x, method.dx())):
             subs[xi] = xi+theta*dxi
         # Substitute symbols in core.M
-        method.M = method.M.subs(subs)
+        method.M = method.M.subs(subs).subs(subs_g)
         # Substitute symbols in core.z
         for i, z in enumerate(method.z):
-            method.z[i] = z.subs(subs)
+            method.z[i] = z.subs(subs).subs(subs_g)
 
     # else if theta == 'trapez' => trapezoidal
     else:
@@ -771,7 +773,7 @@ def build_structure_evaluation(method):
         for i, (xi, dxi) in enumerate(zip(method.x, method.dx())):
             subs[xi] = xi+dxi
         # Substitute symbols in core.M
-        method.M = 0.5*(method.M + method.M.subs(subs))
+        method.M = (0.5*(method.M + method.M.subs(subs))).subs(subs_g)
         # Substitute symbols in core.z
         for i, z in enumerate(method.z):
-            method.z[i] = 0.5*(z + z.subs(subs))
+            method.z[i] = (0.5*(z + z.subs(subs))).subs(subs_g)
-- 
2.43.0


From 844bb0e8201522effb692476ba95544108797ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:11 +0000
Subject: [PATCH 23/57] fix: number of values of the constant signals read with
 a decimation

---
 pyphs/numerics/simulations/h5data/h5data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyphs/numerics/simulations/h5data/h5data.py b/pyphs/numerics/simulations/h5data/h5data.py
index 8417f07..e8ee076 100644
--- a/pyphs/numerics/simulations/h5data/h5data.py
+++ b/pyphs/numerics/simulations/h5data/h5data.py
@@ -874,7 +874,7 @@ or an integer nt (number of time steps).'
         if vslice is None:
             vslice = slice(None, None, None)
 
-        expectedNt = (tslice.stop-tslice.start)//tslice.step
+        expectedNt = len(range(tslice.start, tslice.stop, tslice.step))
 
         evalobj = self.method.to_evaluation(names=[name], vslice=vslice)
 
-- 
2.43.0


From 954bdb4633334945179b184956cb877fbf4c7cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:28 +0000
Subject: [PATCH 24/57] fix: close the data file after the evaluation of
 derived signals

---
 pyphs/numerics/simulations/h5data/h5data.py | 30 ++++++++++-----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pyphs/numerics/simulations/h5data/h5data.py b/pyphs/numerics/simulations/h5data/h5data.py
index e8ee076..0e9f59e 100644
--- a/pyphs/numerics/simulations/h5data/h5data.py
+++ b/pyphs/numerics/simulations/h5data/h5data.py
@@ -853,14 +853,14 @@ or an integer nt (number of time steps).'
             arrays.append(array)
         output = numpy.hstack(arrays)[vslice]
 
+        if close:
+            self.h5close()
+
         if postprocess is None:
             return output
         else:
             return postprocess(output)
 
-        if close:
-            self.h5close()
-
     def _expression(self, name, tslice=None, vslice=None, postprocess=None):
 
         tslice = self._tslice(tslice)
@@ -896,15 +896,15 @@ or an integer nt (number of time steps).'
         if not numpy.prod(output.shape):
             output = numpy.zeros((expectedNt, 0))
 
+        if close:
+            self.h5close()
+
         # Apply postprocess
         if postprocess is None:
             return output
         else:
             return postprocess(output)
 
-        if close:
-            self.h5close()
-
     def args(self, tslice=None, vslice=None, postprocess=None):
         """
         args
@@ -1048,14 +1048,14 @@ or an integer nt (number of time steps).'
         output = self.dx(tslice=tslice, vslice=vslice,
                          postprocess=lambda dx: dx*self.fs)
 
+        if close:
+            self.h5close()
+
         if postprocess is None:
             return output
         else:
             return postprocess(output)
 
-        if close:
-            self.h5close()
-
     # ----------------------------------------------------------------------- #
 
     def a(self, tslice=None, vslice=None, postprocess=None):
@@ -1401,14 +1401,14 @@ or an integer nt (number of time steps).'
                                   self['dxH', tslice],
                                   self['dtx', tslice])
 
+        if close:
+            self.h5close()
+
         if postprocess is None:
             return output
         else:
             return postprocess(output)
 
-        if close:
-            self.h5close()
-
     # ----------------------------------------------------------------------- #
 
     def E(self, tslice=None, vslice=None, postprocess=None):
@@ -1508,10 +1508,10 @@ or an integer nt (number of time steps).'
                               self['u', tslice],
                               self['y', tslice])
 
+        if close:
+            self.h5close()
+
         if postprocess is None:
             return output
         else:
             return postprocess(output)
-
-        if close:
-            self.h5close()
-- 
2.43.0


From 0a35e45d9f91d724d7fd99e701aaf2a34787ad27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:28 +0000
Subject: [PATCH 25/57] fix: reset of the window of the simulation data with
 tstart=None

---
 pyphs/numerics/simulations/h5data/h5data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyphs/numerics/simulations/h5data/h5data.py b/pyphs/numerics/simulations/h5data/h5data.py
index 0e9f59e..6ae4ad6 100644
--- a/pyphs/numerics/simulations/h5data/h5data.py
+++ b/pyphs/numerics/simulations/h5data/h5data.py
@@ -218,7 +218,7 @@ class H5Data(object):
             if not isinstance(t, (int, float)):
                 text = 'tstart must be a positive value: %s.' % str(t)
                 raise ValueError(text)
-        self.start = self._time2index(t, m='min')
+            self.start = self._time2index(t, m='min')
 
     # tstart: start = tstart*fs and slice for t is slice(start, stop, step)
     tstart = property(_get_tstart, _set_tstart)
-- 
2.43.0


From fd5b1db651698c9602af6d1d6896fef05a3707a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:28 +0000
Subject: [PATCH 26/57] fix: index associated with a time on the grid of the
 simulation

---
 pyphs/numerics/simulations/h5data/h5data.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyphs/numerics/simulations/h5data/h5data.py b/pyphs/numerics/simulations/h5data/h5data.py
index 6ae4ad6..a394930 100644
--- a/pyphs/numerics/simulations/h5data/h5data.py
+++ b/pyphs/numerics/simulations/h5data/h5data.py
@@ -167,10 +167,13 @@ class H5Data(object):
             Time index.
 
         """
+        # The product is rounded before the truncation so that the times on
+        # the grid i/fs are associated with the index i.
+        i = int(round(t*self.fs, 6))
         if m == 'min':
-            return int(t*self.fs)
+            return i
         elif m == 'max':
-            return int(t*self.fs)+1
+            return i+1
         else:
             raise ValueError('unknown m={}'.format(m))
 
-- 
2.43.0


From 9a6bafa6d76a3b6c2b8fb7e7cc29ce83481e4c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:28 +0000
Subject: [PATCH 27/57] fix: selection of components in the simulation data

---
 pyphs/numerics/simulations/h5data/h5data.py | 26 +++++++--------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/pyphs/numerics/simulations/h5data/h5data.py b/pyphs/numerics/simulations/h5data/h5data.py
index a394930..c9b0183 100644
--- a/pyphs/numerics/simulations/h5data/h5data.py
+++ b/pyphs/numerics/simulations/h5data/h5data.py
@@ -665,26 +665,16 @@ or an integer nt (number of time steps).'
 
         # read variable slice from data object indices
         if vslice is None:
-            vslice = slice(*self.inds[vname])
+            vslice = slice(None)
 
-        # convert index in var to index in global dataset
-        elif isinstance(vslice, int):
-            vslice += self.inds[vname][0]
+        # convert indices in var to indices in global dataset
+        first, last = self.inds[vname]
 
-        # custom variable slice
+        if isinstance(vslice, slice):
+            start, stop, step = vslice.indices(last-first)
+            return slice(first+start, first+stop, step)
         else:
-            if vslice.start is not None:
-                start = vslice.start+self.inds[vname][0]
-            else:
-                start = self.inds[vname][0]
-            if vslice.stop is not None:
-                stop = vslice.stop+self.inds[vname][0]
-            else:
-                stop = self.inds[vname][1]
-            step = vslice.step
-            vslice = slice(start, stop, step)
-
-        return vslice
+            return range(first, last)[vslice]
 
     def _read_data(self, vname, tslice, vslice):
         """
@@ -854,7 +844,7 @@ or an integer nt (number of time steps).'
             if len(array.shape) < 2:
                 array = array[:, numpy.newaxis]
             arrays.append(array)
-        output = numpy.hstack(arrays)[vslice]
+        output = numpy.hstack(arrays)[:, vslice]
 
         if close:
             self.h5close()
-- 
2.43.0


From 747d4b62e8a776d677b3e1813e676f27ece00e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:36 +0000
Subject: [PATCH 28/57] fix: decimation of the variation of the energy

---
 pyphs/numerics/simulations/h5data/h5data.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyphs/numerics/simulations/h5data/h5data.py b/pyphs/numerics/simulations/h5data/h5data.py
index c9b0183..584cf3b 100644
--- a/pyphs/numerics/simulations/h5data/h5data.py
+++ b/pyphs/numerics/simulations/h5data/h5data.py
@@ -1382,11 +1382,14 @@ or an integer nt (number of time steps).'
 
         # Compute DtE = (h[x[n+1]]-h[x[n]]) / dt
         if DtE == 'deltaH':
+            # variations from each time step to the next one, then decimation
+            allsteps = slice(tslice.start, tslice.stop, 1)
             last_dtH_value = numpy.einsum('ti,ti->t',
                                           self['dxH', tslice.stop-1],
                                           self['dtx', tslice.stop-1])/self.fs
-            output = numpy.ediff1d(self.E(tslice=tslice),
-                                   to_end=last_dtH_value)*self.fs/tslice.step
+            output = numpy.ediff1d(self.E(tslice=allsteps),
+                                   to_end=last_dtH_value)*self.fs
+            output = output[::tslice.step]
 
         # Compute DtE = dxh.T * dtx
         elif DtE == 'DxhDtx':
-- 
2.43.0


From d40ede8471f318c9dd6489a8b1bafa7e7ea0d792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:36 +0000
Subject: [PATCH 29/57] fix: same forms for the sequences of inputs and of
 parameters

---
 pyphs/numerics/simulations/h5data/h5data.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyphs/numerics/simulations/h5data/h5data.py b/pyphs/numerics/simulations/h5data/h5data.py
index 584cf3b..4b0400f 100644
--- a/pyphs/numerics/simulations/h5data/h5data.py
+++ b/pyphs/numerics/simulations/h5data/h5data.py
@@ -341,7 +341,7 @@ or an integer nt (number of time steps).'
 
         # if sequ is not provided, a sequence of [[0]*ny]*nt is assumed
         ny = self.method.dims.y()
-        if isinstance(sequ, list):
+        if isinstance(sequ, (list, tuple)):
             sequ = numpy.array(sequ)
         elif hasattr(sequ, '__next__'):
             sequ = numpy.array(list(sequ))
@@ -358,10 +358,12 @@ or an integer nt (number of time steps).'
 
         # if seqp is not provided, a sequence of [[0]*np]*nt is assumed
         np = self.method.dims.p()
+        if isinstance(seqp, (list, tuple)):
+            seqp = numpy.array(seqp)
+        elif hasattr(seqp, '__next__'):
+            seqp = numpy.array(list(seqp))
         if seqp is None:
             seqp = [[0]*np for _ in range(nt)]
-        if isinstance(seqp, list):
-            seqp = numpy.array(seqp)
         elif len(seqp.shape) == 1:
             if not np == 1:
                 text = 'Expected parameter shape is ({}, {}), got ({}, )'
-- 
2.43.0


From 7fd6217ae08dcc32482782b4a619e18b869f9bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:14 +0000
Subject: [PATCH 30/57] fix: vectorized evaluations return arrays and accept
 scalars

---
 pyphs/numerics/tools/_evaluation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyphs/numerics/tools/_evaluation.py b/pyphs/numerics/tools/_evaluation.py
index 59105eb..a1f0f91 100644
--- a/pyphs/numerics/tools/_evaluation.py
+++ b/pyphs/numerics/tools/_evaluation.py
@@ -19,11 +19,13 @@ def pyphs_vectorize(func):
     """
     #return numpy.vectorize(func)
     def vec_func(*args):
+        # scalar arguments
+        if all(numpy.ndim(a) == 0 for a in args):
+            return func(*args)
         len_args = len(args[0])
         if not all(len(a) == len_args for a in args[1:]):
             raise AttributeError('Can not call vectorized function {} since given arguments have not the same length.'.format(func.__name__))
-        for ith_args in zip(*args):
-            yield func(*ith_args)
+        return numpy.array([func(*ith_args) for ith_args in zip(*args)])
     return vec_func
 
 
-- 
2.43.0


From d6f822c79c3e5260de78e02e5e7580101f529641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:14 +0000
Subject: [PATCH 31/57] fix: evaluation of vectors with no selection or a
 single component

---
 pyphs/numerics/tools/_evaluation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyphs/numerics/tools/_evaluation.py b/pyphs/numerics/tools/_evaluation.py
index a1f0f91..b623334 100644
--- a/pyphs/numerics/tools/_evaluation.py
+++ b/pyphs/numerics/tools/_evaluation.py
@@ -148,10 +148,14 @@ class Evaluation(object):
             # args are symbs reorganized
             args, inds = find(symbs, allargs)
 
+            if isinstance(expr, types.vector_types) and vslice is not None:
+                expr = expr[vslice]
+                vslice = None
+
             if isinstance(expr, types.vector_types):
                 func = vector_expr_to_numeric(
                     args,
-                    expr[vslice],
+                    expr,
                     subs=core.subs,
                     theano=theano,
                     vectorize=vectorize
-- 
2.43.0


From 349a894fad0a66ee04880c5e05d81a47d98f5b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:23 +0000
Subject: [PATCH 32/57] fix: the simulations do not share the options for
 reading their data

---
 pyphs/numerics/simulations/simulation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyphs/numerics/simulations/simulation.py b/pyphs/numerics/simulations/simulation.py
index 3cd6764..c35bc45 100644
--- a/pyphs/numerics/simulations/simulation.py
+++ b/pyphs/numerics/simulations/simulation.py
@@ -165,6 +165,9 @@ class Simulation(object):
                     raise AttributeError(text)
         self.config.update(config)
 
+        # load options are not shared between simulations
+        self.config['load'] = dict(self.config['load'])
+
         # Rebuild method if parameters are differents
         self.init_method()
 
-- 
2.43.0


From e8b95f9f68bc4d031cea37278bc2bab23e28e0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:28 +0000
Subject: [PATCH 33/57] fix: a simulation does not change the method given as
 argument

---
 pyphs/numerics/simulations/simulation.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pyphs/numerics/simulations/simulation.py b/pyphs/numerics/simulations/simulation.py
index c35bc45..08d8869 100644
--- a/pyphs/numerics/simulations/simulation.py
+++ b/pyphs/numerics/simulations/simulation.py
@@ -259,8 +259,18 @@ class Simulation(object):
         Build the numerical method.
         """
         if self.config_method() != self.method.config:
-            self.method.__init__(self.method._core,
-                                 config=self.config_method())
+            self.renew_method()
+
+    def renew_method(self):
+        """
+        Replace the method, which can be used by other simulations, by a new
+        one for the current configuration and values of the parameters.
+        """
+        subs = self.method.subs
+        self.method = self.method.__class__(self.method._core,
+                                            config=self.config_method(),
+                                            label=self.method.label)
+        self.method.subs.update(subs)
 
     # -------------------------------------------------------------------------
 
-- 
2.43.0


From 020643455af5642997d194141eba911b2b2de586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:28 +0000
Subject: [PATCH 34/57] fix: Simulation.init applies the changes of
 configuration

---
 pyphs/numerics/simulations/simulation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyphs/numerics/simulations/simulation.py b/pyphs/numerics/simulations/simulation.py
index 08d8869..68c4acc 100644
--- a/pyphs/numerics/simulations/simulation.py
+++ b/pyphs/numerics/simulations/simulation.py
@@ -348,6 +348,7 @@ class Simulation(object):
                 list(self.config_method().keys())]):
             self.config.update(c)
             self.init_method()
+            init_numeric = True
 
         if init_numeric:
             self.init_numericalCore()
-- 
2.43.0


From 1609170042ebc2cbb525a9bcd8b38d84fa8c94c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:28 +0000
Subject: [PATCH 35/57] fix: Simulation.init applies the changes of parameters

---
 pyphs/numerics/simulations/simulation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyphs/numerics/simulations/simulation.py b/pyphs/numerics/simulations/simulation.py
index 68c4acc..50e5c24 100644
--- a/pyphs/numerics/simulations/simulation.py
+++ b/pyphs/numerics/simulations/simulation.py
@@ -320,8 +320,14 @@ class Simulation(object):
             for k in subs.keys():
                 if k not in self.method.subs.keys():
                     init_numeric = True
+            # the values of the parameters are included in the python functions
+            if self.config['lang'] == 'python':
+                init_numeric = True
             if not init_numeric:
                 init_parameters = True
+            # the parameters of the other simulations are not changed
+            self.renew_method()
+            self.data.method = self.method
         self.method.subs.update(subs)
         if init_parameters:
             self.init_parameters()
-- 
2.43.0


From 66d15efa17885cd2ea5861ef434f4b6ea9c83b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:28 +0000
Subject: [PATCH 36/57] fix: Simulation.init restores the initial state

---
 pyphs/numerics/numerical_core/_numerical_core.py | 1 +
 pyphs/numerics/simulations/simulation.py         | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/pyphs/numerics/numerical_core/_numerical_core.py b/pyphs/numerics/numerical_core/_numerical_core.py
index cf3013f..8aa33e5 100644
--- a/pyphs/numerics/numerical_core/_numerical_core.py
+++ b/pyphs/numerics/numerical_core/_numerical_core.py
@@ -71,6 +71,7 @@ class Numeric(object):
         Set initilization values of self.
 
         """
+        self.args[:] = 0.
         for k in self.inits.keys():
             val = self.inits[k]
             get_func = getattr(self, k)
diff --git a/pyphs/numerics/simulations/simulation.py b/pyphs/numerics/simulations/simulation.py
index 50e5c24..7e92723 100644
--- a/pyphs/numerics/simulations/simulation.py
+++ b/pyphs/numerics/simulations/simulation.py
@@ -358,6 +358,9 @@ class Simulation(object):
 
         if init_numeric:
             self.init_numericalCore()
+        elif self.config['lang'] == 'python':
+            # start again from the initialization values
+            self.nums.init()
 
         self.data.init_data(nt, sequ=u, seqp=p)
 
-- 
2.43.0


From c3b49860280e0ae63b5945a76aa014306949b73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:36 +0000
Subject: [PATCH 37/57] fix: values of the parameters in the evaluation of
 observers

---
 pyphs/numerics/tools/_evaluation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyphs/numerics/tools/_evaluation.py b/pyphs/numerics/tools/_evaluation.py
index b623334..37d9f8b 100644
--- a/pyphs/numerics/tools/_evaluation.py
+++ b/pyphs/numerics/tools/_evaluation.py
@@ -64,10 +64,11 @@ class Evaluation(object):
             print('Build numerical evaluations...')
 
         self.core = core.__copy__()
-        self.core.o = list(self.core.observers.values())
 
         self.core.substitute(selfall=True)
 
+        self.core.o = list(self.core.observers.values())
+
         if names in ['all', None]:
             names = self.core.exprs_names
             names = names.union(self.core.struc_names)
-- 
2.43.0


From ac1ab8f73e1e015db8ff65eb8fbfbd9843ccf67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:05 +0000
Subject: [PATCH 38/57] fix: vectors a and b of a core with connectors

---
 pyphs/core/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyphs/core/core.py b/pyphs/core/core.py
index cfc8903..e2941dc 100644
--- a/pyphs/core/core.py
+++ b/pyphs/core/core.py
@@ -385,10 +385,10 @@ class Core:
         return [self.symbols('dt'+str(x)) for x in self.x]
 
     def b(self):
-        return self.dtx() + self.w + self.y
+        return self.dtx() + self.w + self.y + self.cy
 
     def a(self):
-        return geteval(self, 'dxH') + self.z + self.u
+        return geteval(self, 'dxH') + self.z + self.u + self.cu
 
     def pd(self):
         output = sympify(0)
-- 
2.43.0


From df21484fd4e69d072d2f7a12f273ac91ca5b31d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:18 +0000
Subject: [PATCH 39/57] fix: the sum of netlists does not change the first one

---
 pyphs/graphs/netlists.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyphs/graphs/netlists.py b/pyphs/graphs/netlists.py
index 0558df4..ff69b10 100644
--- a/pyphs/graphs/netlists.py
+++ b/pyphs/graphs/netlists.py
@@ -8,7 +8,9 @@ Created on Sun Jun  5 08:50:42 2016
 from __future__ import absolute_import, division, print_function
 
 import os
+import re
 import ast
+import copy
 from pyphs.config import datum, VERBOSE
 
 def sep():
@@ -83,9 +85,9 @@ i-th parameter is defined as 'label_pari'.
         return item
 
     def __add__(net1, net2):
-        net = net1
+        net = copy.deepcopy(net1)
         for l in net2:
-            net.add_line(l)
+            net.add_line(copy.deepcopy(l))
         return net
 
     def nlines(self):
-- 
2.43.0


From 523478241cc6d5eec845dcf1f672a0b2e4d52b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:18 +0000
Subject: [PATCH 40/57] fix: the sum of graphs does not change the first one

---
 pyphs/graphs/graph.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyphs/graphs/graph.py b/pyphs/graphs/graph.py
index 9c134da..14dfe5d 100755
--- a/pyphs/graphs/graph.py
+++ b/pyphs/graphs/graph.py
@@ -16,6 +16,7 @@ from .tools import serial_edges, parallel_edges
 from .exceptions import IndeterminateRealizability
 from ..config import datum, VERBOSE, GRAPHS_LAYOUT, GRAPHS_ITERATIONS
 import os
+import copy
 
 description = "\
 Class for graph representation of port-Hamiltonian systems and the automated \
@@ -696,6 +697,14 @@ class Graph(nx.MultiDiGraph):
         """
         Graph summation.
         """
+        graph = copy.deepcopy(graph1)
+        graph += graph2
+        return graph
+
+    def __iadd__(graph1, graph2):
+        """
+        In-place graph summation.
+        """
         if hasattr(graph1, 'netlist') and hasattr(graph2, 'netlist'):
             graph1.netlist += graph2.netlist
         graph1.core += graph2.core
-- 
2.43.0


From 86add496ffedf595e645a35ed90b1b67a43dbbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:18 +0000
Subject: [PATCH 41/57] fix: netlist files keep the values of the nodes and of
 the parameters

---
 pyphs/graphs/netlists.py | 75 +++++++++++++++++++++++-----------------
 1 file changed, 43 insertions(+), 32 deletions(-)

diff --git a/pyphs/graphs/netlists.py b/pyphs/graphs/netlists.py
index ff69b10..e6361fa 100644
--- a/pyphs/graphs/netlists.py
+++ b/pyphs/graphs/netlists.py
@@ -113,7 +113,7 @@ components).
                 if line.startswith('#'):
                     if VERBOSE >= 1:
                         print('pass "{}"'.format(line[:-1]))
-                elif len(line) == 1:
+                elif len(line.strip()) == 0:
                     pass
                 else:
                     if VERBOSE >= 1:
@@ -121,29 +121,22 @@ components).
                     # get 'infos' (dic, comp and nodes) and parameters
                     infos, _, parameters = line.partition(':')
                     # get ‘dic.comp' and 'label nodes'
-                    si = infos.split()
-                    diccomp = si.pop(0)
-                    label = si.pop(0)
-                    nodes = ''.join(si)
+                    diccomp, label, nodes = infos.split(None, 2)
+                    nodes = nodes.strip()
                     dic, _, comp = diccomp.partition('.')
                     self.dictionaries = list(self.dictionaries)+[dic, ]
                     self.components = list(self.components)+[comp, ]
                     self.labels = list(self.labels)+[label, ]
                     self.nodes = list(self.nodes)+[ast.literal_eval(nodes), ]
-                    nb_pars = parameters.count('=')
                     pars = {}
-                    for n in range(nb_pars):
-                        par, _, parameters = parameters.partition(';')
-                        par = par.replace(' ', '')
-                        key, _, value = par.partition('=')
+                    for par in parameters.split(';'):
+                        if '=' not in par:
+                            continue
+                        key, _, value = map(str.strip, par.partition('='))
                         if value.startswith('('):
-                            value = value[1:-1].split(',')
-                            value = tuple(map(eval, value))
+                            value = eval(value)
                         else:
-                            try:
-                                value = ast.literal_eval(value)
-                            except ValueError:
-                                pass
+                            value = read_value(value)
                         pars.update({key: value})
                     self.arguments = list(self.arguments)+[pars, ]
 
@@ -186,25 +179,13 @@ components).
         """
         set the netlist line 'n' whith provided dictionary
         """
-        value = line['dictionary']
-        try:
-            value = ast.literal_eval(value)
-        except ValueError:
-            pass
+        value = unquote(line['dictionary'])
         self.dictionaries[n] = value
 
-        value = line['component']
-        try:
-            value = ast.literal_eval(value)
-        except ValueError:
-            pass
+        value = unquote(line['component'])
         self.components[n] = value
 
-        value = line['label']
-        try:
-            value = ast.literal_eval(value)
-        except (ValueError, SyntaxError):
-            pass
+        value = unquote(line['label'])
         self.labels[n] = value
 
         value = line['nodes']
@@ -326,6 +307,36 @@ components).
         core = self.to_core(label=label)
         return core.to_simulation(config=config, inits=inits, erase=erase)
 
+def read_value(value):
+    """
+    Return the python object written in string 'value', or 'value' if it is not
+    the expression of a python object (e.g. a label with no quotes).
+    """
+    try:
+        return ast.literal_eval(value)
+    except (ValueError, SyntaxError):
+        return value
+
+
+def unquote(label):
+    """
+    Return the content of a quoted string, and any other 'label' unchanged.
+    """
+    value = read_value(label)
+    return value if isinstance(value, str) else label
+
+
+def write_value(value):
+    """
+    Return the string that encodes 'value' in a netlist line: the labels are
+    written with no quotes when they can be read so.
+    """
+    if isinstance(value, str) and (not re.match(r'[a-zA-Z_]\w*$', value) or
+                                   read_value(value) != value):
+        return repr(value)
+    return str(value)
+
+
 def print_netlist_line(dic):
     """
     Return the line of the pyphs netlist associated to
@@ -376,6 +387,6 @@ or tuple (str, float).
     pars = ""
     if dic['arguments'] is not None:
         for par in dic['arguments'].keys():
-            pars += ' {}={};'.format(par, str(dic['arguments'][par]))
+            pars += ' {}={};'.format(par, write_value(dic['arguments'][par]))
     line = component + pars + '\n'
     return line
-- 
2.43.0


From efa40121b0eea225986a78f91e66ff07697ff10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:18 +0000
Subject: [PATCH 42/57] fix: netlist lines with no arguments

---
 pyphs/graphs/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyphs/graphs/graph.py b/pyphs/graphs/graph.py
index 14dfe5d..f5687e7 100755
--- a/pyphs/graphs/graph.py
+++ b/pyphs/graphs/graph.py
@@ -393,7 +393,7 @@ class Graph(nx.MultiDiGraph):
             component = getattr(dic, klass)
             component_graph = component(line['label'],
                                         line['nodes'],
-                                        **line['arguments'])
+                                        **(line['arguments'] or {}))
             self += component_graph
 
     def plot(self, filename=None, ax=None, show=True):
-- 
2.43.0


From 416d2b4f5e4a010a2a88b9d08680f2e5541ac963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:01 +0000
Subject: [PATCH 43/57] fix: merge of components connected to nodes labelled by
 numbers

---
 pyphs/graphs/graph.py    | 4 ++--
 pyphs/graphs/subgraph.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyphs/graphs/graph.py b/pyphs/graphs/graph.py
index f5687e7..fa56230 100755
--- a/pyphs/graphs/graph.py
+++ b/pyphs/graphs/graph.py
@@ -432,7 +432,7 @@ class Graph(nx.MultiDiGraph):
                 if not n == datum:
                     sg.add_edge(datum, n, **{'type': 'port',
                                              'ctrl': '?',
-                                             'label': sglabel + '_out_' + n})
+                                             'label': sglabel + '_out_' + str(n)})
             # build subgraph analysis object
             sg._build_analysis()
             # add subgraph to root graph
@@ -482,7 +482,7 @@ class Graph(nx.MultiDiGraph):
                 if not n == datum:
                     pg.add_edge(datum, n, **{'type': 'port',
                                              'ctrl': '?',
-                                             'label': pglabel + '_out_' + n})
+                                             'label': pglabel + '_out_' + str(n)})
             # add subgraph to root graph
             self.add_edge(n1, n2, **{'type': 'graph',
                                      'ctrl': '?',
diff --git a/pyphs/graphs/subgraph.py b/pyphs/graphs/subgraph.py
index 5921411..ed5698e 100644
--- a/pyphs/graphs/subgraph.py
+++ b/pyphs/graphs/subgraph.py
@@ -709,12 +709,12 @@ determined\n{}'.format(e))
             try:
                 ind = self.orientations.index(1)
                 n1, n2 = self.edgeslist[ind][:2]
-                n2temp = 'N'+str(edata['label'])+'_'+n2
+                n2temp = 'N'+str(edata['label'])+'_'+str(n2)
                 nodes = n1, n2temp
             except ValueError:
                 ind = 0
                 n1, n2 = self.edgeslist[ind][:2]
-                n2temp = 'N'+str(edata['label'])+'_'+n2
+                n2temp = 'N'+str(edata['label'])+'_'+str(n2)
                 nodes = n2temp, n1
 
             edataTemp = self[n1][n2][0]
-- 
2.43.0


From 976e0ca0e5e530c1465d42f09a418d9e637c1d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:07 +0000
Subject: [PATCH 44/57] fix: netlist arguments given with their quotes are
 written as they are

---
 pyphs/graphs/netlists.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyphs/graphs/netlists.py b/pyphs/graphs/netlists.py
index e6361fa..649c914 100644
--- a/pyphs/graphs/netlists.py
+++ b/pyphs/graphs/netlists.py
@@ -329,10 +329,12 @@ def unquote(label):
 def write_value(value):
     """
     Return the string that encodes 'value' in a netlist line: the labels are
-    written with no quotes when they can be read so.
+    written with no quotes when they can be read so. The strings that are given
+    with their quotes, e.g. repr(path), are written as they are.
     """
-    if isinstance(value, str) and (not re.match(r'[a-zA-Z_]\w*$', value) or
-                                   read_value(value) != value):
+    if (isinstance(value, str) and unquote(value) == value and
+            (not re.match(r'[a-zA-Z_]\w*$', value) or
+             read_value(value) != value)):
         return repr(value)
     return str(value)
 
-- 
2.43.0


From be2f340b0a5b3f8124915a182db809c4237f4c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:45 +0000
Subject: [PATCH 45/57] fix: default values of the parameters of the components

---
 pyphs/dictionary/electronics/_capacitor.py    | 2 +-
 pyphs/dictionary/electronics/_inductor.py     | 6 ++++--
 pyphs/dictionary/electronics/_resistor.py     | 6 ++++--
 pyphs/dictionary/electronics/_source.py       | 8 +++++---
 pyphs/dictionary/mechanics_dual/_source.py    | 8 +++++---
 pyphs/dictionary/mechanics_dual/_stiffness.py | 4 +++-
 pyphs/dictionary/thermics/_transfers.py       | 6 +++---
 7 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/pyphs/dictionary/electronics/_capacitor.py b/pyphs/dictionary/electronics/_capacitor.py
index 9f4dc56..b44a70e 100644
--- a/pyphs/dictionary/electronics/_capacitor.py
+++ b/pyphs/dictionary/electronics/_capacitor.py
@@ -52,7 +52,7 @@ class Capacitor(StorageLinear):
                 'desc': 'Linear capacitor.',
                 'nodesdesc': "Capacitor terminals with positive current N1->N2.",
                 'nodes': ('N1', 'N2'),
-                'parameters': [['C', 'Capacitance', 'F', '1e-9']],
+                'parameters': [['C', 'Capacitance', 'F', 1e-9]],
                 'refs': {},
                 'nnodes': 2,
                 'nedges': 1,
diff --git a/pyphs/dictionary/electronics/_inductor.py b/pyphs/dictionary/electronics/_inductor.py
index 1e06090..803a85a 100644
--- a/pyphs/dictionary/electronics/_inductor.py
+++ b/pyphs/dictionary/electronics/_inductor.py
@@ -17,8 +17,10 @@ class Inductor(StorageLinear):
 
     def __init__(self, label, nodes, **kwargs):
 
+        parameters = parametersDefault(self.metadata['parameters'])
+        parameters.update(kwargs)
         par_name = 'L'
-        par_val = kwargs[par_name]
+        par_val = parameters[par_name]
         kwargs = {'name': par_name,
                   'value': par_val,
                   'inv_coeff': True,
@@ -32,7 +34,7 @@ class Inductor(StorageLinear):
                 'desc': 'Linear inductor.',
                 'nodesdesc': "Inductor terminals with positive current N1->N2.",
                 'nodes': ('N1', 'N2'),
-                'parameters': [['L', 'Inductance', 'H', '1e-3']],
+                'parameters': [['L', 'Inductance', 'H', 1e-3]],
                 'refs': {},
                 'nnodes': 2,
                 'nedges': 1,
diff --git a/pyphs/dictionary/electronics/_resistor.py b/pyphs/dictionary/electronics/_resistor.py
index 9b5247c..036fa68 100644
--- a/pyphs/dictionary/electronics/_resistor.py
+++ b/pyphs/dictionary/electronics/_resistor.py
@@ -16,10 +16,12 @@ from ..electronics import metadata as dicmetadata
 class Resistor(DissipativeLinear):
 
     def __init__(self, label, nodes, **kwargs):
-        if kwargs['R'] is None:
+        parameters = parametersDefault(self.metadata['parameters'])
+        parameters.update(kwargs)
+        if parameters['R'] is None:
             coeff = 0
         else:
-            coeff = kwargs['R']
+            coeff = parameters['R']
         DissipativeLinear.__init__(self, label, nodes, coeff=coeff)
 
     metadata = {'title': 'Resistor',
diff --git a/pyphs/dictionary/electronics/_source.py b/pyphs/dictionary/electronics/_source.py
index 81bf930..7ed5501 100644
--- a/pyphs/dictionary/electronics/_source.py
+++ b/pyphs/dictionary/electronics/_source.py
@@ -16,16 +16,18 @@ from ..electronics import metadata as dicmetadata
 class Source(Port):
 
     def __init__(self, label, nodes, **kwargs):
-        type_ = kwargs['type']
+        parameters = parametersDefault(self.metadata['parameters'])
+        parameters.update(kwargs)
+        type_ = parameters['type']
         type_ = type_.lower()
         assert type_ in ('voltage', 'current')
         if type_ == 'voltage':
             ctrl = 'f'
         elif type_ == 'current':
             ctrl = 'e'
-        kwargs.update({'ctrl': ctrl})
+        parameters.update({'ctrl': ctrl})
 #        kwargs.update({'units': units})
-        Port.__init__(self, label, nodes, **kwargs)
+        Port.__init__(self, label, nodes, **parameters)
 
     metadata = {'title': 'Electrical source',
                 'component': 'Source',
diff --git a/pyphs/dictionary/mechanics_dual/_source.py b/pyphs/dictionary/mechanics_dual/_source.py
index cfe5aa2..61fd872 100644
--- a/pyphs/dictionary/mechanics_dual/_source.py
+++ b/pyphs/dictionary/mechanics_dual/_source.py
@@ -16,15 +16,17 @@ from pyphs.misc.rst import equation
 class Source(Port):
 
     def __init__(self, label, nodes, **kwargs):
-        type_ = kwargs['type']
+        parameters = parametersDefault(self.metadata['parameters'])
+        parameters.update(kwargs)
+        type_ = parameters['type']
         type_ = type_.lower()
         assert type_ in ('force', 'velocity')
         if type_ == 'force':
             ctrl = 'f'
         elif type_ == 'velocity':
             ctrl = 'e'
-        kwargs.update({'ctrl': ctrl})
-        Port.__init__(self, label, nodes, **kwargs)
+        parameters.update({'ctrl': ctrl})
+        Port.__init__(self, label, nodes, **parameters)
 
     metadata = {'title': 'Mechanical Source',
                 'component': 'Source',
diff --git a/pyphs/dictionary/mechanics_dual/_stiffness.py b/pyphs/dictionary/mechanics_dual/_stiffness.py
index 75cabc2..626a395 100644
--- a/pyphs/dictionary/mechanics_dual/_stiffness.py
+++ b/pyphs/dictionary/mechanics_dual/_stiffness.py
@@ -16,8 +16,10 @@ from pyphs.misc.rst import equation
 class Stiffness(StorageLinear):
 
     def __init__(self, label, nodes, **kwargs):
+        parameters = parametersDefault(self.metadata['parameters'])
+        parameters.update(kwargs)
         par_name = 'K'
-        par_val = kwargs[par_name]
+        par_val = parameters[par_name]
         kwargs = {'name': par_name,
                   'value': par_val,
                   'inv_coeff': False,
diff --git a/pyphs/dictionary/thermics/_transfers.py b/pyphs/dictionary/thermics/_transfers.py
index 285e4e8..735ab07 100644
--- a/pyphs/dictionary/thermics/_transfers.py
+++ b/pyphs/dictionary/thermics/_transfers.py
@@ -17,10 +17,10 @@ from pyphs.misc.rst import equation
 class Transfer(DissipativeNonLinear):
 
     def __init__(self, label, nodes, **kwargs):
+        parameters = parametersDefault(self.metadata['parameters'])
+        parameters.update(kwargs)
         # parameters
         pars = ['R', ]
-        for par in pars:
-            assert par in kwargs.keys()
         R, = symbols(pars)
 
         # dissipation variable
@@ -57,7 +57,7 @@ class Transfer(DissipativeNonLinear):
                                          [edge1,
                                           edge2],
                                          w, [z1, z2],
-                                         **kwargs)
+                                         **parameters)
 
     metadata = {'title': 'Thermal transfer',
                 'component': 'Transfer',
-- 
2.43.0


From 4a70683f1f37d50271610ff858f016d58296a296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:45 +0000
Subject: [PATCH 46/57] fix: components with a parameter named as another key

---
 pyphs/dictionary/edges/connectors.py     | 2 +-
 pyphs/dictionary/edges/dissipatives.py   | 5 +++--
 pyphs/dictionary/edges/storages.py       | 2 +-
 pyphs/dictionary/mechanics/_felt.py      | 4 ++--
 pyphs/dictionary/mechanics_dual/_felt.py | 4 ++--
 pyphs/dictionary/transducers/_pickup.py  | 2 +-
 6 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/pyphs/dictionary/edges/connectors.py b/pyphs/dictionary/edges/connectors.py
index 8b9dd16..5b41002 100644
--- a/pyphs/dictionary/edges/connectors.py
+++ b/pyphs/dictionary/edges/connectors.py
@@ -24,7 +24,7 @@ class Connector(Graph):
         self.core.subs.update(subs)
         # replace parameters in alpha by correspondances in 'dicpars'
         alpha = self.core.symbols('alpha')
-        alpha = alpha.subs(dicpars)
+        alpha = alpha.subs(dicpars, simultaneous=True)
         # symbols for inputs and outputs:
         u1, u2 = self.core.symbols([nicevarlabel('u', label + str(el))
                                     for el in (1, 2)])
diff --git a/pyphs/dictionary/edges/dissipatives.py b/pyphs/dictionary/edges/dissipatives.py
index 2818729..b0452ea 100644
--- a/pyphs/dictionary/edges/dissipatives.py
+++ b/pyphs/dictionary/edges/dissipatives.py
@@ -119,11 +119,12 @@ keys of the kwargs arguments.
         self.core.subs.update(subs)
         # replace parameters in z by correspondances in 'dicpars'
         for i, zz in enumerate(z):
-            z[i] = zz.subs(dicpars)
+            z[i] = zz.subs(dicpars, simultaneous=True)
         for e, edge in enumerate(edges):
             if 'z' in edge[2].keys():
                 for k in ['e_ctrl', 'f_ctrl']:
-                    edges[e][2]['z'][k] = edge[2]['z'][k].subs(dicpars)
+                    edges[e][2]['z'][k] = edge[2]['z'][k].subs(
+                        dicpars, simultaneous=True)
 
         # add dissipative component
         self.core.add_dissipations(w, z)
diff --git a/pyphs/dictionary/edges/storages.py b/pyphs/dictionary/edges/storages.py
index d9c48df..3dfe554 100644
--- a/pyphs/dictionary/edges/storages.py
+++ b/pyphs/dictionary/edges/storages.py
@@ -92,7 +92,7 @@ keys of the kwargs arguments.
         # update dict of subs in phs
         self.core.subs.update(subs)
         # replace parameters in H by correspondances in 'dicpars'
-        H = H.subs(dicpars)
+        H = H.subs(dicpars, simultaneous=True)
         # add dissipative component
         self.core.add_storages(x, H)
         # update phs.Graph with edges
diff --git a/pyphs/dictionary/mechanics/_felt.py b/pyphs/dictionary/mechanics/_felt.py
index 05485e8..0085564 100644
--- a/pyphs/dictionary/mechanics/_felt.py
+++ b/pyphs/dictionary/mechanics/_felt.py
@@ -29,7 +29,7 @@ class Felt(Graph):
         N1, N2 = nodes
         xnl = symbols('q'+label)
         hnl = sp.Piecewise((0., xnl <= 0.), ((L*F/(B+1))*(xnl/L)**(B+1), True))
-        hnl = hnl.subs(dicpars)
+        hnl = hnl.subs(dicpars, simultaneous=True)
         # edge data
         data = {'label': xnl,
                 'type': 'storage',
@@ -39,7 +39,7 @@ class Felt(Graph):
         self.core.add_storages(xnl, hnl)
 
         r = sp.Piecewise((0., xnl <= 0.), ((A * L/B)*(xnl/L)**(B-1), True))
-        r = r.subs(dicpars)
+        r = r.subs(dicpars, simultaneous=True)
         wnl = symbols('dtq'+label)
         # edge data
         data = {'label': wnl,
diff --git a/pyphs/dictionary/mechanics_dual/_felt.py b/pyphs/dictionary/mechanics_dual/_felt.py
index 5dbf08b..ebc5cca 100644
--- a/pyphs/dictionary/mechanics_dual/_felt.py
+++ b/pyphs/dictionary/mechanics_dual/_felt.py
@@ -31,7 +31,7 @@ class Felt(Graph):
         N3 = label+'_N3'
         xnl = symbols('q'+label)
         hnl = sp.Piecewise((0., xnl <= 0.), ((L*F/(B+1))*(xnl/L)**(B+1), True))
-        hnl = hnl.subs(dicpars)
+        hnl = hnl.subs(dicpars, simultaneous=True)
         # edge data
         data = {'label': xnl,
                 'type': 'storage',
@@ -41,7 +41,7 @@ class Felt(Graph):
         self.core.add_storages(xnl, hnl)
 
         r = sp.Piecewise((0., xnl <= 0.), ((A * L/B)*(xnl/L)**(B-1), True))
-        r = r.subs(dicpars)
+        r = r.subs(dicpars, simultaneous=True)
         wnl = symbols('dtq'+label)
         # edge data
         data = {'label': wnl,
diff --git a/pyphs/dictionary/transducers/_pickup.py b/pyphs/dictionary/transducers/_pickup.py
index 353e1e8..57353a6 100644
--- a/pyphs/dictionary/transducers/_pickup.py
+++ b/pyphs/dictionary/transducers/_pickup.py
@@ -58,7 +58,7 @@ class Pickup(Graph):
             return 2*Rb**2*dmu*Rp*((f1-2*Lh**2)/f1**2 -
                                    (f2-2*Lh**2)/f2**2) * dtq
 
-        falpha = (f(q, dtq)**-1).subs(dicpars)
+        falpha = (f(q, dtq)**-1).subs(dicpars, simultaneous=True)
         self += Gyrator(label+'MecToMag',
                         (self.datum, NCcoil, self.datum, NMagnet),
                         alpha=(label+'f', falpha))
-- 
2.43.0


From c4f6719547353ed635abc1d693825dd94ab75314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:45 +0000
Subject: [PATCH 47/57] fix: magnetic source with the documented type mfv

---
 pyphs/dictionary/magnetics/_source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyphs/dictionary/magnetics/_source.py b/pyphs/dictionary/magnetics/_source.py
index 2cdc6f2..a0c5c0c 100644
--- a/pyphs/dictionary/magnetics/_source.py
+++ b/pyphs/dictionary/magnetics/_source.py
@@ -21,10 +21,10 @@ class Source(Port):
         parameters.update(kwargs)
         type_ = parameters['type']
         type_ = type_.lower()
-        assert type_ in ('mmf', 'fluxvar')
+        assert type_ in ('mmf', 'mfv', 'fluxvar')
         if type_ == 'mmf':
             ctrl = 'f'
-        elif type_ == 'fluxvar':
+        else:
             ctrl = 'e'
         parameters.update({'ctrl': ctrl})
         Port.__init__(self, label, nodes, **parameters)
-- 
2.43.0


From 79bd22b76bf2dbce6b69f1b90e4b48607395d445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:45 +0000
Subject: [PATCH 48/57] fix: forms of the parameters of the coil of the pickup

---
 pyphs/dictionary/transducers/_pickup.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyphs/dictionary/transducers/_pickup.py b/pyphs/dictionary/transducers/_pickup.py
index 57353a6..b3d9d5b 100644
--- a/pyphs/dictionary/transducers/_pickup.py
+++ b/pyphs/dictionary/transducers/_pickup.py
@@ -23,8 +23,10 @@ class Pickup(Graph):
         parameters = parametersDefault(self.metadata['parameters'])
         parameters.update(kwargs)
 
-        Ccoil = float(parameters.pop('Ccoil'))
-        Ncoil = float(parameters.pop('Ncoil'))
+        Ccoil = parameters.pop('Ccoil')
+        Ncoil = parameters.pop('Ncoil')
+        if not isinstance(Ncoil, (tuple, str)):
+            Ncoil = (label+'Ncoil', Ncoil)
 
         # remove H0
         parameters.pop('H0')
@@ -67,7 +69,7 @@ class Pickup(Graph):
                           C=Ccoil)
         self += Gyrator(label+'MagToElec',
                         (self.datum, NCcoil, ELEC1, ELEC2),
-                        alpha=(label+'Ncoil', Ncoil))
+                        alpha=Ncoil)
         self.core.subs.update(subs)
 
     metadata = {'title': 'Electro-magnetic Pickup',
-- 
2.43.0


From 43c35ace4af7592bedef5c824d2f09651e8b03b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:10 +0000
Subject: [PATCH 49/57] fix: parameters shared by several components appear
 once

---
 pyphs/core/core.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyphs/core/core.py b/pyphs/core/core.py
index e2941dc..74d7fb5 100644
--- a/pyphs/core/core.py
+++ b/pyphs/core/core.py
@@ -322,6 +322,9 @@ class Core:
         for name in core1.symbs_names:
             attr1 = getattr(core1, name)
             attr2 = getattr(core2, name)
+            if name == 'p':
+                # parameters can be shared by core1 and core2
+                attr2 = [p for p in attr2 if p not in attr1]
             core.setsymb(name, attr1 + attr2)
 
         for vari in core.dims.names:
@@ -337,6 +340,9 @@ class Core:
         for name in core1.symbs_names:
             attr1 = getattr(core1, name)
             attr2 = getattr(core2, name)
+            if name == 'p':
+                # parameters can be shared by core1 and core2
+                attr2 = [p for p in attr2 if p not in attr1]
             core.setsymb(name, attr1 + attr2)
 
         # Update subs disctionary
@@ -968,9 +974,9 @@ add the connector'.format(i)
             pass
         elif isinstance(p, types.scalar_types):
             p = [p, ]
-        self.p += p
-
         for par in p:
+            if par not in self.p:
+                self.p += [par, ]
             if par in self.subs:
                 self.subs.pop(par)
 
-- 
2.43.0


From 4bd84a24d040e9a5f2e01a19eb439e92d2621e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:06 +0000
Subject: [PATCH 50/57] fix: plate current of the triode for negative voltages

---
 pyphs/dictionary/electronics/_triode.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyphs/dictionary/electronics/_triode.py b/pyphs/dictionary/electronics/_triode.py
index d063b58..3a38c98 100644
--- a/pyphs/dictionary/electronics/_triode.py
+++ b/pyphs/dictionary/electronics/_triode.py
@@ -59,7 +59,9 @@ class Triode(DissipativeNonLinear):
             e2 = sympy.sqrt(Kvb + vpk**2)
             e3 = Kp*(mu**-1 + e1/e2)
             exprE = (vpk/Kp)*sympy.log(1 + sympy.exp(e3))
-            expr = exprE**Ex * (1 + sign(exprE)) / Kg
+            # smoothed absolute value, for the negative plate voltages
+            absE = sympy.sqrt(exprE**2 + GMIN**2)
+            expr = absE**Ex * (1 + sign(exprE)) / Kg
             return expr.evalf()
 
         z = [ipk()+(vpk+vgk)*GMIN, igk()+(vpk+vgk)*GMIN]
-- 
2.43.0


From fc4529298972b44e1329cf0ad6bf0b820a3c0562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:17 +0000
Subject: [PATCH 51/57] fix: documented arguments of the piecewise linear
 components

---
 pyphs/dictionary/pwl/_dissipative.py |  7 +++++--
 pyphs/dictionary/pwl/_storage.py     | 10 ++++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/pyphs/dictionary/pwl/_dissipative.py b/pyphs/dictionary/pwl/_dissipative.py
index 9336474..5557ef7 100644
--- a/pyphs/dictionary/pwl/_dissipative.py
+++ b/pyphs/dictionary/pwl/_dissipative.py
@@ -32,8 +32,11 @@ class Dissipative(Graph):
 
         path = kwargs.pop('file')
         data = np.vstack(map(np.array, data_generator(path)))
-        w_vals = data[0, :]
-        z_vals = data[1, :]
+        # selected values
+        indices = slice(*[kwargs.pop(k, None)
+                          for k in ('start', 'stop', 'step')])
+        w_vals = data[0, indices]
+        z_vals = data[1, indices]
 
         assert all(z_vals[np.nonzero(w_vals >= 0)] >= 0), 'All values z(w) for\
  w>=0 must be non-negative (component {})'.format(label)
diff --git a/pyphs/dictionary/pwl/_storage.py b/pyphs/dictionary/pwl/_storage.py
index 35ce757..6c86790 100644
--- a/pyphs/dictionary/pwl/_storage.py
+++ b/pyphs/dictionary/pwl/_storage.py
@@ -28,8 +28,14 @@ class Storage(Graph):
         assert 'file' in kwargs, "pwl.storage component need 'file' argument"
         path = kwargs.pop('file')
         vals = np.vstack(map(np.array, data_generator(path)))
-        x_vals = vals[0, :]
-        h_vals = vals[1, :]
+        # selected values
+        indices = slice(*[kwargs.pop(k, None)
+                          for k in ('start', 'stop', 'step')])
+        x_vals = vals[0, indices]
+        h_vals = vals[1, indices]
+        # 'integ' is the key of the argument 'integrate' in pwl_func
+        integ = kwargs.pop('integrate', False)
+        kwargs.setdefault('integ', integ)
 
         assert all(h_vals[np.nonzero(x_vals >= 0)] >= 0), 'All values h(x) for\
  x>=0 must be non-negative (component {})'.format(label)
-- 
2.43.0


From 918c16476905a44cae52d4a953465736e1050b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:10 +0000
Subject: [PATCH 52/57] fix: elements of the generated C++ functions that
 depend on the sample rate only are updated with it

---
 pyphs/numerics/cpp/functions.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pyphs/numerics/cpp/functions.py b/pyphs/numerics/cpp/functions.py
index d7ce0d6..e016c3b 100644
--- a/pyphs/numerics/cpp/functions.py
+++ b/pyphs/numerics/cpp/functions.py
@@ -151,6 +151,15 @@ def _str_mat_func_get_element(method, name, objlabel):
 ###############################################################################
 # Updates
 
+def _is_updated(method, symbs):
+    """
+Return True if one of the symbols can change after the construction, that is
+an argument or the sample rate.
+    """
+    return any(symb in method.args() or symb == method.fs for symb in symbs)
+
+
+
 def _append_funcs_updates(method, files, objlabel):
     title = linesplit + "\n// Functions Results Updates"
     files['h']['private'] += title
@@ -175,7 +184,7 @@ def _str_mat_func_update(method, name, objlabel):
     update_cpp = '\nvoid {0}::{1}_update()'.format(objlabel, name) + '{'
     for m, n, expr in mat.row_list():
             symbs = expr.free_symbols
-            if any(symb in method.args() for symb in symbs):
+            if _is_updated(method, symbs):
                 c = ccode(expr, dereference=dereference(method))
                 update_cpp += '\n_{0}({1}, {2}) = {3};'.format(name, m, n, c)
     update_cpp += '\n};'
@@ -187,7 +196,7 @@ def _str_scal_func_update(method, name, objlabel):
     update_h = '\nvoid {0}_update();'.format(name)
     update_cpp = '\nvoid {0}::{1}_update()'.format(objlabel, name) + '{'
     symbs = expr.free_symbols
-    if any(symb in method.args for symb in symbs):
+    if _is_updated(method, symbs):
         c = ccode(expr, dereference=dereference(method))
         update_cpp += '\n_{0} = {1};'.format(name, c)
     update_cpp += '\n};'
@@ -222,7 +231,7 @@ def _str_mat_func_init_data(method, name):
             if (m, n) in mat_dic.keys():
                 expr = mat[m, n]
                 symbs = expr.free_symbols
-                if not any(symb in method.args() for symb in symbs):
+                if not _is_updated(method, symbs):
                     c = ccode(expr, dereference=dereference(method))
 #                    data = 'float({0}), '.format(c)
                     data = '{0}, '.format(c)
@@ -237,7 +246,7 @@ def _str_scal_func_init_data(method, name):
     expr = getattr(method, name + '_expr')
     init_data = '{1} {0}_data = '.format(name, CONFIG_CPP['float'])
     symbs = expr.free_symbols
-    if any(symb in method.args for symb in symbs):
+    if _is_updated(method, symbs):
         init_data += "0.;"
     else:
         c = ccode(expr, dereference=dereference(method))
-- 
2.43.0


From 8db0095d58216304465a0871964e8b39f244b122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:10 +0000
Subject: [PATCH 53/57] fix: values of the parameters in the C++ file do not
 depend on the order of the substitutions

---
 pyphs/numerics/cpp/method2cpp.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyphs/numerics/cpp/method2cpp.py b/pyphs/numerics/cpp/method2cpp.py
index bbeae21..274545e 100644
--- a/pyphs/numerics/cpp/method2cpp.py
+++ b/pyphs/numerics/cpp/method2cpp.py
@@ -21,6 +21,7 @@ import numpy
 import sympy
 import os
 import copy
+from collections import OrderedDict
 
 
 standard_config = {'path': os.getcwd()}
@@ -234,6 +235,13 @@ def method2cpp(method, objlabel=None, path=None,
     if subs is None:
         subs = method.subs
 
+    # the class refers to the parameters by their index in method.subs
+    if isinstance(subs, dict):
+        subs = [subs, ]
+    subs = [OrderedDict((symb, sub.get(symb, value))
+                        for symb, value in method.subs.items())
+            for sub in subs]
+
     parameters_files = parameters(subs, objlabel)
     for e in exts:
         filename = path + os.sep + 'parameters.{0}'.format(e)
-- 
2.43.0


From 39de0e94c0cb6917aa118ec682abc05190841af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:10 +0000
Subject: [PATCH 54/57] fix: C++ file with several sets of parameters

---
 pyphs/numerics/cpp/method2cpp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyphs/numerics/cpp/method2cpp.py b/pyphs/numerics/cpp/method2cpp.py
index 274545e..6b24e5a 100644
--- a/pyphs/numerics/cpp/method2cpp.py
+++ b/pyphs/numerics/cpp/method2cpp.py
@@ -370,7 +370,9 @@ const {0} subs[{1}][{2}]""".format(CONFIG_CPP['float'], nsubs, npars) + """ = {
                 # Write value
                 files['cpp'] += str(float(s[k])) + ', '
             # Close brackets
-            files['cpp'] = files['cpp'][:-2] + """},
+            files['cpp'] = files['cpp'][:-2] + """},"""
+        # Close array
+        files['cpp'] += """
 };"""
 
 
-- 
2.43.0


From e03d5ac2d89d740016cb994a8432de658f3a8629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:10 +0000
Subject: [PATCH 55/57] fix: initial values of the C++ arguments in the
 configured float type

---
 pyphs/numerics/cpp/arguments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyphs/numerics/cpp/arguments.py b/pyphs/numerics/cpp/arguments.py
index 7a4a664..8379367 100644
--- a/pyphs/numerics/cpp/arguments.py
+++ b/pyphs/numerics/cpp/arguments.py
@@ -213,7 +213,7 @@ def _str_args_init_data(method, name):
                 symbs = expr.free_symbols
                 if not any(symb in method.args() for symb in symbs):
                     c = ccode(expr, dereference=dereference(method))
-                    data = 'float({0}), '.format(c)
+                    data = '{1}({0}), '.format(c, CONFIG_CPP['float'])
             init_data += data
     if crop:
         init_data = init_data[:-2]
-- 
2.43.0


From 036dff913f52c059cc13d3ada8ed14965f8d7094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:10 +0000
Subject: [PATCH 56/57] fix: signal generator returns all the cycles

---
 pyphs/misc/signals/synthesis/synthesis_array.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyphs/misc/signals/synthesis/synthesis_array.py b/pyphs/misc/signals/synthesis/synthesis_array.py
index df4529e..5cdba77 100644
--- a/pyphs/misc/signals/synthesis/synthesis_array.py
+++ b/pyphs/misc/signals/synthesis/synthesis_array.py
@@ -302,6 +302,7 @@ to PWM.
     deb = background_noise(parameters['ndeb'])
 
     # cycles
+    cycles = []
     for c in range(parameters['ncycles']):
         if parameters['which'] == 'zero':
             Sig = constant(parameters['non'], 0.)
@@ -349,10 +350,12 @@ to PWM.
             cycle_deb += parameters['offset']
             cycle_end += parameters['offset']
 
+        cycles.extend((cycle_deb, cycle_end))
+
     # end
     end = background_noise(parameters['nend'])
 
-    return hstack((deb, cycle_deb, cycle_end, end))
+    return hstack([deb] + cycles + [end])
 
 
 def build_parameters(**kwargs):
-- 
2.43.0


From ba764ddb9a6cdc310d58ddc97c7dc3351b1e148e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:10 +0000
Subject: [PATCH 57/57] fix: low-pass filter of short signals and generators

---
 pyphs/misc/signals/processing.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyphs/misc/signals/processing.py b/pyphs/misc/signals/processing.py
index 796489a..c646d9a 100644
--- a/pyphs/misc/signals/processing.py
+++ b/pyphs/misc/signals/processing.py
@@ -27,7 +27,7 @@ def lowpass(s, fc, tbw=1e-2):
         Low-pass version of input signal s.
     """
 
-    from numpy import arange, cos, sinc, ceil, convolve, pi
+    from numpy import arange, array, cos, sinc, ceil, convolve, pi
 
     b = tbw*fc
     fc = fc-b
@@ -44,4 +44,7 @@ def lowpass(s, fc, tbw=1e-2):
     h = h * w
     # Normalize to get unity gain.
     h = h / sum(h)
-    return convolve(s, h, 'same')
+    # Keep the samples aligned with those of the input signal.
+    s = array([el for el in s])
+    start = (N - 1) // 2
+    return convolve(s, h, 'full')[start:start + len(s)]
-- 
2.43.0

