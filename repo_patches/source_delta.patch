From 47947ae1977f7329c6c765231c5b44655cd7f442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 01/43] fix: SparseTensor with one nonzero, order one, zero
 results or diagonal matrices

Squeezing the data and shape broke tensors with a single nonzero entry or
of order one; tensor_vector_product kept stale data when contracting all
the modes or when the result vanishes; tensor_matrix_product failed for
zero or order-one tensors; tensor_diagonal_matrix_product passed
FullTensors to scipy.sparse.
---
 .../tensor_algebra/tensors/sparse_tensor.py   | 31 +++++++++----------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/sparse_tensor.py b/tensap/tensor_algebra/tensors/sparse_tensor.py
index 28c880b..8d11415 100644
--- a/tensap/tensor_algebra/tensors/sparse_tensor.py
+++ b/tensap/tensor_algebra/tensors/sparse_tensor.py
@@ -80,6 +80,7 @@ class SparseTensor:
                 self.order = np.ndim(data)
                 self.shape = np.shape(data)
 
+                data = np.asarray(data)
                 rep = np.nonzero(data)
                 self.data = data[rep]
                 self.indices = tensap.MultiIndices(
@@ -108,8 +109,8 @@ class SparseTensor:
             ), "data and indices must have the same number of elements."
         else:
             raise ValueError("Wrong input arguments.")
-        self.data = np.squeeze(self.data)
-        self.shape = np.squeeze(self.shape)
+        self.data = np.ravel(self.data)
+        self.shape = np.ravel(self.shape)
 
     @property
     def size(self):
@@ -308,7 +309,7 @@ class SparseTensor:
             assert len(vectors) == self.order, "len(vectors) must be self.order."
             dims = np.arange(self.order)
         else:
-            dims = np.array(dims)
+            dims = np.atleast_1d(dims)
             if not isinstance(vectors, list):
                 vectors = [vectors]
             assert len(vectors) == dims.size, "len(vectors) must be equal to dims.size."
@@ -329,21 +330,20 @@ class SparseTensor:
                 :, np.setdiff1d(range(out.indices.array.shape[1]), dims[i])
             ]
             out.indices.array = out.indices.array[a != 0, :]
+            out.data = a[a != 0]
 
             if out.indices.array.size != 0:
                 out.indices.array, ind = np.unique(
                     out.indices.array, axis=0, return_inverse=True
                 )
+                out.data = np.bincount(np.ravel(ind), weights=out.data)
 
-                a = a[a != 0]
-                out.data = np.bincount(ind, weights=a)
-
-            dims -= dims > dims[i]
+            dims = dims - (dims > dims[i])
 
         out.order -= len(vectors)
 
         if np.size(out.shape) == 0:
-            out = out.data
+            out = np.sum(out.data)
 
         return out
 
@@ -387,25 +387,22 @@ class SparseTensor:
         for mu in dims:
             perm_dims = np.concatenate(([mu], np.setdiff1d(np.arange(out.order), mu)))
             out = out.transpose(perm_dims)
-            if out.order == 1:
-                out.shape[1] = 1
+            shape_2 = np.prod(out.shape[1:], dtype=int)
             ind = tensap.MultiIndices(out.indices.array[out.data != 0, :]).sub2ind(
                 out.shape
             )
-            x1, x2 = np.unravel_index(
-                ind, [out.shape[0], np.prod(out.shape[1:])], order="F"
-            )
+            x1, x2 = np.unravel_index(ind, [out.shape[0], shape_2], order="F")
             x2u, x2uind = np.unique(x2, return_inverse=True)
             s = coo_matrix(
                 (out.data[out.data != 0], (x1, x2uind)),
-                shape=(out.shape[0], np.max(x2uind) + 1),
+                shape=(out.shape[0], x2u.size),
             )
             a = np.transpose(s.transpose().dot(np.transpose(matrices[k])))
             y1, y2 = np.nonzero(a)
             out.shape[0] = matrices[k].shape[0]
             ind = np.ravel_multi_index(
                 (y1, np.reshape(x2u[y2], y1.shape)),
-                (out.shape[0], np.prod(out.shape[1:])),
+                (out.shape[0], shape_2),
                 order="F",
             )
             out.indices = tensap.MultiIndices.ind2sub(out.shape, ind)
@@ -527,12 +524,12 @@ class SparseTensor:
             assert len(matrices) == self.order, "len(matrices) must be self.order."
             dims = range(self.order)
         else:
-            dims = np.array(dims)
+            dims = np.atleast_1d(dims)
             assert (
                 len(matrices) == dims.size
             ), "len(matrices) must be equal to dims.size."
 
-        matrices = [tensap.FullTensor(np.diag(np.reshape(x, [-1]))) for x in matrices]
+        matrices = [np.diag(np.reshape(x, [-1])) for x in matrices]
         return self.tensor_matrix_product(matrices, dims)
 
     def dot(self, y):
-- 
2.43.0


From 7a4c2b4a560ceccfc19b665dbb428fb90fb8f716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 02/43] fix: FullTensor.kron for different orders and matricize
 along all modes

---
 tensap/tensor_algebra/tensors/full_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/full_tensor.py b/tensap/tensor_algebra/tensors/full_tensor.py
index d4a117f..9c65f2e 100644
--- a/tensap/tensor_algebra/tensors/full_tensor.py
+++ b/tensap/tensor_algebra/tensors/full_tensor.py
@@ -675,7 +675,7 @@ class FullTensor:
             ),
             shape1 * shape2,
         )
-        return FullTensor(data, shape=self.shape * tensor2.shape)
+        return FullTensor(data)
 
     def orth(self, dim=None):
         """
@@ -1110,7 +1110,7 @@ class FullTensor:
 
         tensor = FullTensor(self)
         tensor = tensor.transpose(np.concatenate((dims1, dims2)))
-        tensor = tensor.reshape([np.prod(shape1), np.prod(shape2)])
+        tensor = tensor.reshape([np.prod(shape1, dtype=int), np.prod(shape2, dtype=int)])
         return FullTensor(tensor)
 
     def outer_product_eval_diag(self, tensor2, dims1, dims2, diag=False):
-- 
2.43.0


From 9195e4eac97eba8d6e4fadb80f6eb85711d676f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 03/43] fix: CanonicalTensor.eval_diag altered the tensor and
 failed for partial modes

---
 tensap/tensor_algebra/tensors/canonical_tensor.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/canonical_tensor.py b/tensap/tensor_algebra/tensors/canonical_tensor.py
index 8d9f6cd..793d728 100644
--- a/tensap/tensor_algebra/tensors/canonical_tensor.py
+++ b/tensap/tensor_algebra/tensors/canonical_tensor.py
@@ -345,19 +345,15 @@ class CanonicalTensor:
 
         out = self.space[dims[0]]
         for k in dims[1:]:
-            out *= self.space[k]
+            out = out * self.space[k]
 
         if is_none or dims.size == self.order:
             out = tensap.FullTensor(np.matmul(out, self.core.data))
         else:
             space = list(self.space)
-            core = deepcopy(self.core)
-
             space[dims[0]] = out
-            space = space[new_dims]
-            core.shape = core.shape[new_dims]
-            core.order = new_dims.size
-            out = CanonicalTensor(space, core)
+            space = [space[k] for k in new_dims]
+            out = CanonicalTensor(space, np.array(self.core.data))
         return out
 
     def dot(self, tensor_2):
-- 
2.43.0


From a89afb7bf9bff83ee4b5d918bf3d5e170d7889b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 04/43] fix: DimensionTree.__eq__ returned True for different
 numbers of nodes per level

---
 tensap/tensor_algebra/tensors/dimension_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/dimension_tree.py b/tensap/tensor_algebra/tensors/dimension_tree.py
index 15fc3ad..0228824 100644
--- a/tensap/tensor_algebra/tensors/dimension_tree.py
+++ b/tensap/tensor_algebra/tensors/dimension_tree.py
@@ -154,7 +154,7 @@ class DimensionTree:
                 nodes1 = self.nodes_with_level(level)
                 nodes2 = T.nodes_with_level(level)
                 if len(nodes1) != len(nodes2):
-                    return is_equal
+                    return False
                 dims1 = [self.dims[i] for i in nodes1 - 1]
                 dims2 = [T.dims[i] for i in nodes2 - 1]
                 for i, dim1 in enumerate(dims1):
-- 
2.43.0


From 81b739dd567ad7ccab8b423b94a40bc6226cf13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 05/43] fix: binary operations on tree-based tensors with
 differently numbered or activated nodes, order-one trees

Sums and inner products combined the tensors node by node although equal
dimension trees may number their nodes differently; inner and entrywise
products did not activate matching nodes; order-one trees failed;
remove_unique_children altered the tensor; __rmul__ reported the wrong
root rank.
---
 .../tensors/tree_based_tensor.py              | 85 ++++++++++++++++---
 1 file changed, 73 insertions(+), 12 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 04074de..56911e3 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -252,6 +252,63 @@ class TreeBasedTensor:
     # def __eq__(self, tensor2):
     #     return np.all(self.data == tensor2.data)
 
+    def _make_compatible(self, arg):
+        """
+        Return representations of self and arg with the same nodes.
+
+        The nodes of arg are numbered as those of self, and the nodes active
+        in one of the two tensors only are activated in the other one.
+
+        Parameters
+        ----------
+        arg : TreeBasedTensor
+            A tensor with a dimension tree equal to the one of self.
+
+        Raises
+        ------
+        ValueError
+            If the dimension trees are different.
+
+        Returns
+        -------
+        TreeBasedTensor, TreeBasedTensor
+            The two tensors.
+
+        """
+        if not self.tree == arg.tree:
+            raise ValueError("Both tensors should have the same tree.")
+
+        tree1 = self.tree
+        tree2 = arg.tree
+        if not (
+            np.array_equal(tree1.dim2ind, tree2.dim2ind)
+            and np.array_equal(tree1.adjacency_matrix, tree2.adjacency_matrix)
+        ):
+            nodes = [
+                next(
+                    nod
+                    for nod in tree2.node_with_dims(tree1.dims[i])
+                    if tree2.level[nod - 1] == tree1.level[i]
+                )
+                for i in range(tree1.nb_nodes)
+            ]
+            tensors = []
+            for i, nod in enumerate(nodes):
+                tensor = arg.tensors[nod - 1]
+                if not tree2.is_leaf[nod - 1]:
+                    ch2 = tree2.children(nod).tolist()
+                    perm = [ch2.index(nodes[c - 1]) for c in tree1.children(i + 1)]
+                    perm += list(range(len(ch2), tensor.order))
+                    tensor = tensor.transpose(perm)
+                tensors.append(tensor)
+            arg = TreeBasedTensor(tensors, tree1)
+
+        if not np.all(self.is_active_node == arg.is_active_node):
+            self = self.activate_nodes(arg.active_nodes)
+            arg = arg.activate_nodes(self.active_nodes)
+
+        return self, arg
+
     def __add__(self, arg):
 
         if not isinstance(arg, TreeBasedTensor):
@@ -259,18 +316,15 @@ class TreeBasedTensor:
                 "Addition only implemented for two TreeBasedTensor."
             )
 
-        if not np.all(self.is_active_node == arg.is_active_node):
-            self = self.activate_nodes(arg.active_nodes)
-            arg = arg.activate_nodes(self.active_nodes)
-
-        if not self.tree == arg.tree:
-            raise ValueError("Both tensors should have the same tree.")
+        self, arg = self._make_compatible(arg)
 
         tree = self.tree
         tensors = np.array(self.tensors)
 
         for nod in np.arange(1, tree.nb_nodes + 1):
-            if tree.is_leaf[nod - 1] and self.is_active_node[nod - 1]:
+            if tree.nb_nodes == 1:
+                tensors[nod - 1] = tensors[nod - 1] + arg.tensors[nod - 1]
+            elif tree.is_leaf[nod - 1] and self.is_active_node[nod - 1]:
                 tensors[nod - 1] = tensors[nod - 1].cat(arg.tensors[nod - 1], 1)
             elif not tree.is_leaf[nod - 1]:
                 children = tree.children(nod)
@@ -317,6 +371,7 @@ class TreeBasedTensor:
             tensor = copy.deepcopy(self)
             tensor.tensors[tensor.tree.root - 1] *= arg
         elif isinstance(arg, tensap.TreeBasedTensor):
+            self, arg = self._make_compatible(arg)
             tensor = self.kron(arg)
             I0 = [np.arange(0, n**2, n + 1) for n in self.shape]
             tensor = tensor.sub_tensor(*I0)
@@ -347,7 +402,7 @@ class TreeBasedTensor:
             tensor.tensors[root] = tensor.tensors[root].tensor_matrix_product(
                 arg, tensor.tensors[root].order - 1
             )
-            tensor.ranks[root] = arg.shape[1]
+            tensor.ranks[root] = arg.shape[0]
         else:
             raise ValueError("Wrong shapes.")
         return tensor
@@ -671,7 +726,7 @@ class TreeBasedTensor:
 
         """
 
-        if isinstance(indices, tuple) and len(indices) == 1:
+        if len(indices) == 1 and (self.order > 1 or np.ndim(indices[0]) > 1):
             indices = indices[0]
 
         assert len(indices) == self.order, "Wrong number of input arguments."
@@ -1618,10 +1673,12 @@ class TreeBasedTensor:
 
         """
         tree = self.tree
-        tensors = self.tensors
+        tensors = np.array(self.tensors)
+        if tree.arity == 0:
+            return TreeBasedTensor(tensors, tree)
         nb_children = np.count_nonzero(tree._children, 0)
         unique_children = tree._children[0, (nb_children == 1)]
-        adj = tree.adjacency_matrix
+        adj = np.array(tree.adjacency_matrix)
         dim2ind = np.array(tree.dim2ind)
 
         for level in np.arange(np.max(tree.level), -1, -1):
@@ -1871,6 +1928,7 @@ class TreeBasedTensor:
             The weighted inner product.
 
         """
+        self, tensor2 = self._make_compatible(tensor2)
         tree = self.tree
         tensors1 = np.array(self.tensors)
         tensors2 = tensor2.tensors
@@ -2460,7 +2518,10 @@ class TreeBasedTensor:
                 self.shape[dim] = self.tensors[parent_nod - 1].shape[ind - 1]
             else:
                 self.shape[dim] = self.tensors[nod - 1].shape[0]
-                self.ranks[nod - 1] = self.tensors[nod - 1].shape[-1]
+                if self.tensors[nod - 1].order > 1:
+                    self.ranks[nod - 1] = self.tensors[nod - 1].shape[-1]
+                else:
+                    self.ranks[nod - 1] = 1
         return self
 
     @staticmethod
-- 
2.43.0


From a691469405a2969b7b587f625c9c33b2d918219c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 06/43] fix: TreeBasedTensor.tensor_train failed for a list of
 cores with dims

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 56911e3..b1e400c 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -2752,7 +2752,7 @@ class TreeBasedTensor:
         tree = tensap.DimensionTree.linear(order)
         tensors = np.empty(tree.nb_nodes, dtype="object")
         if dims is not None:
-            cores = cores[np.argsort(dims)]
+            cores = [cores[i] for i in np.argsort(dims)]
 
         dim2ind = tree.dim2ind
         nod = dim2ind[0]
-- 
2.43.0


From 4478e12fa463bc2c40e765f870e4c24a65201cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:17 +0000
Subject: [PATCH 07/43] fix: FullTensor.eval_at_indices along several modes
 used the wrong index order

---
 tensap/tensor_algebra/tensors/full_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/full_tensor.py b/tensap/tensor_algebra/tensors/full_tensor.py
index 9c65f2e..bf608a0 100644
--- a/tensap/tensor_algebra/tensors/full_tensor.py
+++ b/tensap/tensor_algebra/tensors/full_tensor.py
@@ -331,7 +331,7 @@ class FullTensor:
         else:
             no_dims = tensap.fast_setdiff(np.arange(self.order), dims)
             indices = np.ravel_multi_index(
-                np.transpose(indices), [self.shape[i] for i in dims]
+                np.transpose(indices), [self.shape[i] for i in dims], order="F"
             )
             evaluations = self.matricize(dims).sub_tensor(indices, ":")
             evaluations = evaluations.reshape(
-- 
2.43.0


From fd806404de4f88dd2b7b3528926c95d16e8aa33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:17 +0000
Subject: [PATCH 08/43] fix: DiagonalTensor.eval_diag along non contiguous
 modes

---
 tensap/tensor_algebra/tensors/diagonal_tensor.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/diagonal_tensor.py b/tensap/tensor_algebra/tensors/diagonal_tensor.py
index 5b2cb11..2947f11 100644
--- a/tensap/tensor_algebra/tensors/diagonal_tensor.py
+++ b/tensap/tensor_algebra/tensors/diagonal_tensor.py
@@ -577,9 +577,7 @@ class DiagonalTensor:
             out = np.array(self.data)
         else:
             dims = np.sort(np.atleast_1d(dims))
-            rep = np.concatenate(
-                (np.arange(dims[0] + 1), np.arange(dims[-1] + 1, self.order))
-            )
+            rep = np.setdiff1d(np.arange(self.order), dims[1:])
             out = deepcopy(self)
             out.shape = out.shape[rep]
             out.order = np.size(rep)
-- 
2.43.0


From 3e767203f6b175a5675495db499dd9765640fced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:17 +0000
Subject: [PATCH 09/43] fix: TreeBasedTensor.eval_diag along some modes altered
 the tensor, sub_tensor of an order-one tree with ':'

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index b1e400c..9ec13b6 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -734,6 +734,8 @@ class TreeBasedTensor:
         tensors = np.array(self.tensors)
         for dim in range(self.order):
             nod = tree.dim2ind[dim]
+            if isinstance(indices[dim], str) and indices[dim] == ":":
+                continue
             if not self.is_active_node[nod - 1]:
                 parent = tree.parent(nod)
                 child_nb = tree.child_number(nod)
@@ -1322,7 +1324,8 @@ class TreeBasedTensor:
             subtree, nodes = tree.sub_dimension_tree(alpha)
             xs = tensap.TreeBasedTensor(self.tensors[nodes - 1], subtree)
             xs = xs.eval_diag()
-            self.tensors[alpha - 1] = xs
+            tensors = np.array(self.tensors)
+            tensors[alpha - 1] = xs
             # indices of the nodes that are kept
             keep_ind = tensap.fast_setdiff(
                 np.arange(tree.nb_nodes), tree.descendants(alpha) - 1
@@ -1340,7 +1343,7 @@ class TreeBasedTensor:
             mu = np.where(alpha == keep_ind + 1)[0][0] + 1
             dim2ind.insert(0, mu)
             newtree = tensap.DimensionTree(dim2ind, adj)
-            return TreeBasedTensor(self.tensors[keep_ind], newtree)
+            return TreeBasedTensor(tensors[keep_ind], newtree)
 
     def cat(self, tensor2):
         """
-- 
2.43.0


From 36bc3f5d975a3575babbd2fe3e7b0727e80e9d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:13 +0000
Subject: [PATCH 10/43] fix: DiagonalTensor.dot_with_rank_one_metric, hence
 CanonicalTensor.dot, used transposed matrices

---
 tensap/tensor_algebra/tensors/diagonal_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/diagonal_tensor.py b/tensap/tensor_algebra/tensors/diagonal_tensor.py
index 2947f11..4bba59a 100644
--- a/tensap/tensor_algebra/tensors/diagonal_tensor.py
+++ b/tensap/tensor_algebra/tensors/diagonal_tensor.py
@@ -501,7 +501,7 @@ class DiagonalTensor:
 
         """
         if isinstance(matrix, list):
-            matrix = np.hstack([np.reshape(x, [-1, 1]) for x in matrix])
+            matrix = np.hstack([np.reshape(x, [-1, 1], order="F") for x in matrix])
         matrix = np.reshape(
             np.expand_dims(matrix, 1),
             (self.shape[0], y.shape[0], self.order),
-- 
2.43.0


From 8f29a6a620ae37515adae8cc00448da100d3ccfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 11/43] fix: TreeBasedTensor.dot of order-one tensors and
 tensordot_matrix_product_except_dim raised

---
 .../tensors/tree_based_tensor.py               | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 9ec13b6..7da0f4a 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1942,9 +1942,10 @@ class TreeBasedTensor:
             if self.is_active_node[nod - 1]:
                 tmp = tensors2[nod - 1].tensor_matrix_product(out[nod - 1], 0)
                 out[nod - 1] = tensors1[nod - 1].tensordot(tmp, 0, 0)
-                out[nod - 1] = out[nod - 1].reshape(
-                    [tensors1[nod - 1].shape[-1], tensors2[nod - 1].shape[-1]]
-                )
+                if tensors1[nod - 1].order > 1:
+                    out[nod - 1] = out[nod - 1].reshape(
+                        [tensors1[nod - 1].shape[-1], tensors2[nod - 1].shape[-1]]
+                    )
                 out[nod - 1] = out[nod - 1].numpy()
 
         for level in np.arange(np.max(tree.level) - 1, -1, -1):
@@ -1966,10 +1967,7 @@ class TreeBasedTensor:
                         [tensors1[nod - 1].shape[-1], tensors2[nod - 1].shape[-1]]
                     )
                 out[nod - 1] = out[nod - 1].numpy()
-        out = out[nod_level - 1]
-        if out.size == 1:
-            out = out[0]
-        return out
+        return out[tree.root - 1]
 
     def tensordot_matrix_product_except_dim(self, tensor2, matrices, dim):
         """
@@ -1995,9 +1993,9 @@ class TreeBasedTensor:
             The result of the contraction.
 
         """
-        ind = self.tree.dim2ind(dim - 1)
-        out = self.reduce_dot_with_rank_one_metric_at_node(tensor2, matrices, ind)
-        return out[0]
+        dims = tensap.fast_setdiff(np.arange(self.order), dim)
+        tmp = tensor2.tensor_matrix_product([matrices[i] for i in dims], dims)
+        return self.full().tensordot(tmp.full(), dims, dims).numpy()
 
     # def reduce_dot_with_rank_one_metric_at_node(self, tensor2, matrices,
     #                                             alpha):
-- 
2.43.0


From 468e7d90e0a56b5fb1cbe2ca89695cbe2bdca552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:15 +0000
Subject: [PATCH 12/43] fix: parameter gradients at a root with only inactive
 leaves, at a leaf without matrices, or of vector-valued tensors with inactive
 leaves

---
 tensap/functions/functional_tensor.py           |  2 +-
 .../tensor_algebra/tensors/tree_based_tensor.py | 17 +++++++++++++----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index 8f48b53..8abc3c4 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -594,7 +594,7 @@ class FunctionalTensor(tensap.Function):
             else:
                 perm_2 = [fH.tensors[alpha - 1].order]
 
-            if alpha != tree.root and self.tensor.ranks[tree.root - 1] > 1:
+            if alpha != tree.root and fH.ranks[tree.root - 1] > 1:
                 perm_3 = [grad.order - 1]
             else:
                 perm_3 = []
diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 7da0f4a..15f89f3 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -2148,6 +2148,11 @@ class TreeBasedTensor:
                 (tree.nodes_with_level(level), tree.internal_nodes, self.active_nodes),
             )
             nod_level = tensap.fast_setdiff(nod_level, exclude_list)
+            if alpha == tree.root and not np.any(
+                self.is_active_node[tree.children(alpha) - 1]
+            ):
+                # Nothing has to be evaluated below the root
+                nod_level = nod_level[nod_level != tree.root]
             for nod in nod_level:
                 children = tensap.fast_setdiff(tree.children(nod), exclude_list)
                 active_ch = children[self.is_active_node[children - 1]]
@@ -2318,8 +2323,12 @@ class TreeBasedTensor:
         active_ch = children[self.is_active_node[children - 1]]
         inactive_ch = tensap.fast_setdiff(children, active_ch)
 
+        nb_points = diag_above.shape[0]
+        if alpha == tree.root and active_ch.size == 0 and matrices is not None:
+            nb_points = np.shape(matrices[0])[0]
+
         if tree.is_leaf[alpha - 1]:
-            out = tensap.FullTensor.ones(diag_above.shape[0])
+            out = tensap.FullTensor.ones(nb_points)
             if matrices is not None:
                 ind = np.nonzero(tree.dim2ind == alpha)[0][0]
                 out = out.outer_product_eval_diag(
@@ -2327,7 +2336,7 @@ class TreeBasedTensor:
                 )
             else:
                 out = out.outer_product_eval_diag(
-                    tensap.FullTensor(np.eye(diag_below[alpha - 1].shape[0])),
+                    tensap.FullTensor(np.eye(tensors[alpha - 1].shape[0])),
                     [],
                     [],
                     True,
@@ -2343,7 +2352,7 @@ class TreeBasedTensor:
                         diag_below[active_ch[child] - 1], 0, 0
                     )
             if inactive_ch.size != 0:
-                tmp = tensap.FullTensor.ones(diag_above.shape[0])
+                tmp = tensap.FullTensor.ones(nb_points)
                 for child in inactive_ch:
                     if matrices is not None:
                         ind = np.nonzero(tree.dim2ind == child)[0][0]
@@ -2448,7 +2457,7 @@ class TreeBasedTensor:
                 )
             else:
                 g_alpha = g_alpha.outer_product_eval_diag(
-                    tensap.FullTensor(np.eye(u_alpha[alpha - 1].shape[0])), [], [], True
+                    tensap.FullTensor(np.eye(self.tensors[alpha - 1].shape[0])), [], [], True
                 )
             # g_alpha = g_alpha.squeeze()
         else:
-- 
2.43.0


From 27fc94dfee1ac67214c6091f02511d711ea7ab63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:22 +0000
Subject: [PATCH 13/43] fix: multi-index sets: comparisons and reflected
 operators altered operands, descending sort broke ties, empty sets and lists
 failed

---
 tensap/tools/multi_indices.py | 60 +++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 28 deletions(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 5138081..27746d6 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -77,28 +77,30 @@ class MultiIndices:
         if not isinstance(J, MultiIndices):
             ok = False
         else:
+            array = J.array
             if J.cardinal() == 1:
-                J.array = np.tile(J.array, (self.cardinal(), 1))
-            ok = np.all(self.array == J.array, axis=1)
+                array = np.tile(array, (self.cardinal(), 1))
+            ok = np.all(self.array == array, axis=1)
         return ok
 
     def __le__(self, J):
         assert isinstance(J, MultiIndices), "Must provide a MultiIndices."
+        array = J.array
         if J.cardinal() == 1:
-            J.array = np.tile(J.array, (self.cardinal(), 1))
-        return np.all(self.array <= J.array, axis=1)
+            array = np.tile(array, (self.cardinal(), 1))
+        return np.all(self.array <= array, axis=1)
 
     def __add__(self, m):
         return MultiIndices(self.array + m)
 
     def __radd__(self, m):
-        self.array += m
+        return MultiIndices(m + self.array)
 
     def __sub__(self, m):
         return MultiIndices(self.array - m)
 
     def __rsub__(self, m):
-        self.array -= m
+        return MultiIndices(m - self.array)
 
     def cardinal(self):
         """
@@ -293,12 +295,9 @@ class MultiIndices:
 
         array = np.array(self.array)
         for k in np.flip(columns):
-            if k == columns[-1]:
-                ind = np.argsort(array[:, k])
-            else:
-                ind = np.argsort(array[:, k], kind="mergesort")
-            if mode == "descend":
-                ind = np.flip(ind)
+            column = -array[:, k] if mode == "descend" else array[:, k]
+            # A stable sort preserves the order of the previous columns
+            ind = np.argsort(column, kind="mergesort")
             array = array[ind, :]
         return MultiIndices(array.astype(int))
 
@@ -319,7 +318,7 @@ class MultiIndices:
         """
         array = np.vstack((self.array, J.array))
         ind = np.unique(array, axis=0, return_index=True)[1]
-        array = np.array([array[index, :] for index in sorted(ind)])
+        array = array[np.sort(ind), :]
         return MultiIndices(array.astype(int))
 
     def remove_indices(self, J):
@@ -342,7 +341,7 @@ class MultiIndices:
             ind = np.nonzero(np.all(self.array == J.array[:, np.newaxis], axis=2))[1]
         else:
             ind = J
-        array = self.array[np.setdiff1d(range(self.cardinal()), ind), :]
+        array = self.array[np.setdiff1d(np.arange(self.cardinal()), ind), :]
         return MultiIndices(array.astype(int))
 
     def remove_dims(self, dims):
@@ -362,7 +361,7 @@ class MultiIndices:
         """
         array = self.array[:, np.setdiff1d(range(self.ndim()), dims)]
         ind = np.unique(array, axis=0, return_index=True)[1]
-        array = np.array([array[index, :] for index in sorted(ind)])
+        array = array[np.sort(ind), :]
         return MultiIndices(array.astype(int))
 
     def intersect_indices(self, J):
@@ -422,7 +421,7 @@ class MultiIndices:
         """
         array = self.array[:, dims]
         ind = np.unique(array, axis=0, return_index=True)[1]
-        array = np.array([array[index, :] for index in sorted(ind)])
+        array = array[np.sort(ind), :]
         return MultiIndices(array.astype(int))
 
     def get_indices(self, k):
@@ -470,7 +469,7 @@ class MultiIndices:
             if not np.all(ok):
                 cond = False
                 return cond
-            ind_test = np.setdiff1d(ind_test, rep)
+            ind_test = np.setdiff1d(ind_test[:-1], rep)
         return cond
 
     def envelope(self, u):
@@ -500,7 +499,7 @@ class MultiIndices:
         env = np.array(u)
         for i in range(n):
             ind_sup = np.all(array >= np.tile(array[i, :], (n, 1)), axis=1)
-            env[i] = np.max(np.abs(u[ind_sup]))
+            env[i] = np.max(np.abs(np.asarray(u)[ind_sup]))
         return env
 
     def get_maximal_indices(self):
@@ -548,10 +547,10 @@ class MultiIndices:
         ind_marg = np.nonzero(np.all(neighbours == self.array[:, np.newaxis], axis=2))[
             1
         ]
-        ind_marg = neighbours[np.setdiff1d(range(neighbours.shape[0]), ind_marg), :]
+        ind_marg = neighbours[np.setdiff1d(np.arange(neighbours.shape[0]), ind_marg), :]
 
         ind = np.unique(ind_marg, axis=0, return_index=True)[1]
-        ind_marg = np.array([ind_marg[index, :] for index in sorted(ind)])
+        ind_marg = ind_marg[np.sort(ind), :]
 
         return MultiIndices(ind_marg.astype(int))
 
@@ -629,10 +628,10 @@ class MultiIndices:
 
         """
         if p == np.inf:
-            ind = MultiIndices.product_set(np.arange(m + 1), d)
+            ind = MultiIndices.product_set(np.arange(int(m) + 1), d)
         elif p == 1:
             ind = MultiIndices(np.zeros(d, dtype=int))
-            for _ in range(m):
+            for _ in range(int(m)):
                 ind = ind.add_indices(ind.get_margin())
         else:
             ind = MultiIndices(np.zeros(d, dtype=int))
@@ -640,8 +639,9 @@ class MultiIndices:
             while add:
                 M = ind.get_margin()
                 n = M.norm(p)
-                k = np.nonzero(n <= m)[0]
-                if np.all(np.logical_not(k)):
+                # Relative tolerance for the rounding errors in the norm
+                k = np.nonzero(n <= m * (1 + 1e-12))[0]
+                if len(k) == 0:
                     add = False
                 else:
                     j = np.argsort(n[k])
@@ -678,7 +678,8 @@ class MultiIndices:
         ind = [np.arange(int(np.floor(m / x)) + 1) for x in w]
         ind = MultiIndices.product_set(ind)
         n = ind.weighted_norm(p, w)
-        k = np.nonzero(n <= m)[0]
+        # Relative tolerance for the rounding errors in the norm
+        k = np.nonzero(n <= m * (1 + 1e-12))[0]
         j = np.argsort(n[k])
         return ind.keep_indices(k[j])
 
@@ -737,6 +738,9 @@ class MultiIndices:
 
         """
 
+        if d is not None and np.all([np.isscalar(x) for x in L]):
+            L = [L]
+        L = list(L)
         if d is None:
             d = len(L)
         if len(L) == 1 and d > 1:
@@ -755,7 +759,7 @@ class MultiIndices:
         N = np.array([x.shape[0] for x in L])
         dims = np.array([x.shape[1] for x in L])
 
-        loc = list(np.unravel_index(range(np.prod(N)), N, order="F"))
+        loc = list(np.unravel_index(np.arange(np.prod(N)), N, order="F"))
         Indices = np.zeros((np.prod(N), np.sum(dims)), dtype=int)
 
         for i in range(len(L)):
@@ -851,7 +855,7 @@ class MultiIndices:
             M = M.remove_indices(rem)
             n = np.delete(n, rem)
             k = np.nonzero(n <= m)[0]
-            if np.all(np.logical_not(k)):
+            if len(k) == 0:
                 add = False
             else:
                 j = np.argsort(n[k])
@@ -886,7 +890,7 @@ class MultiIndices:
             M = ind.get_margin()
             n = np.prod((M.array + 1) ** w_k, axis=-1)
             k = np.nonzero(n <= p + 1)[0]
-            if np.all(np.logical_not(k)):
+            if len(k) == 0:
                 add = False
             else:
                 j = np.argsort(n[k])
-- 
2.43.0


From 8104b350e5c7a668e5576e032144df6159ca3047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:42 +0000
Subject: [PATCH 14/43] fix: integer2baseb without the number of digits used
 too many digits (rounding) and failed for zero

---
 tensap/tools/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensap/tools/utils.py b/tensap/tools/utils.py
index bdb6756..6cc009d 100644
--- a/tensap/tools/utils.py
+++ b/tensap/tools/utils.py
@@ -55,7 +55,9 @@ def integer2baseb(i, b, d=None):
 
     """
     if d is None:
-        d = int(np.ceil(np.log(np.max(i) + 1) / np.log(b)))
+        d = 1
+        while int(b) ** d <= np.max(i):
+            d += 1
 
     I0 = np.unravel_index(np.ravel(i), np.full(d, b), order="F")
     return np.fliplr(np.transpose(np.array(I0)))
-- 
2.43.0


From 38d8e316f1fff57a3e7362d427c5c27cf00a9bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:49 +0000
Subject: [PATCH 15/43] fix: DimensionTree.linear(1) gave the single dimension
 to node 0

---
 tensap/tensor_algebra/tensors/dimension_tree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/dimension_tree.py b/tensap/tensor_algebra/tensors/dimension_tree.py
index 0228824..afb396b 100644
--- a/tensap/tensor_algebra/tensors/dimension_tree.py
+++ b/tensap/tensor_algebra/tensors/dimension_tree.py
@@ -745,7 +745,10 @@ class DimensionTree:
             dim = order.size
             order -= 1
 
-        d2i = np.concatenate(([2 * dim - 2], 2 * np.arange(dim - 1, 0, -1) + 1))
+        if dim == 1:
+            d2i = np.array([1])
+        else:
+            d2i = np.concatenate(([2 * dim - 2], 2 * np.arange(dim - 1, 0, -1) + 1))
         adj_mat = np.zeros([2 * dim - 1] * 2, dtype=int)
         adj_mat[0, 1:3] = 1
         for level in range(dim - 2):
-- 
2.43.0


From da3f5696fee5251fcae32b100152cd6c171b78e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:18 +0000
Subject: [PATCH 16/43] fix: gramians of several nodes (common ascendants) or
 of a root of rank > 1, the root's singular values (always 1), and
 orth_at_node of a rank-deficient tensor were wrong

---
 .../tensor_algebra/tensors/tree_based_tensor.py   | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 15f89f3..4582857 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1766,7 +1766,7 @@ class TreeBasedTensor:
             tensor = copy.deepcopy(self)
 
         gram = np.empty(tree.nb_nodes, dtype=object)
-        gram[tree.root - 1] = np.atleast_2d(1.0)
+        gram[tree.root - 1] = np.eye(self.ranks[tree.root - 1])
         list_nodes = tensor.active_nodes
 
         if alpha is None:
@@ -1779,7 +1779,7 @@ class TreeBasedTensor:
                 dtype=alpha.dtype,
             )
             list_nodes = tensap.fast_intersect(
-                list_nodes, np.concatenate((ascendants, alpha))
+                list_nodes, np.unique(np.concatenate((ascendants, alpha)))
             )
 
         for level in range(max_level + 1):
@@ -1879,10 +1879,13 @@ class TreeBasedTensor:
         elif self.is_active_node[nod - 1]:
             gram, tensor = self.gramians(nod)
             u_svd, s_svd, _ = np.linalg.svd(gram)
+            # the rank is that of the Gram matrix, known up to round-off errors
+            rep = np.count_nonzero(
+                s_svd > 10 * s_svd.size * np.finfo(float).eps * np.max(s_svd)
+            )
             s_svd = np.sqrt(np.abs(s_svd))
             l_svd = np.matmul(u_svd, np.diag(s_svd))
 
-            rep = np.linalg.matrix_rank(l_svd)
             if rep == 0:
                 print("Zero alpha-rank, returning the original tensor.")
                 return tensor
@@ -2065,6 +2068,12 @@ class TreeBasedTensor:
         """
         tensor = self.orth()
         gramians, _ = tensor.gramians()
+        # the core of the root is not orthogonalized
+        root_core = tensor.tensors[tensor.tree.root - 1].numpy()
+        root_core = np.reshape(
+            root_core, (-1, tensor.ranks[tensor.tree.root - 1]), order="F"
+        )
+        gramians[tensor.tree.root - 1] = np.matmul(root_core.T, root_core)
         return np.array(
             [
                 (
-- 
2.43.0


From d11190d73276256c3e50e586bbead09c27b2c374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:09 +0000
Subject: [PATCH 17/43] fix: the truncations overwrote max_rank and marked a
 truncated tensor as orthogonal (wrong norm), thresholding above all singular
 values crashed or gave negative values, zero matrices gave NaN

---
 tensap/tensor_algebra/tools/truncator.py | 65 +++++++++++++++---------
 1 file changed, 40 insertions(+), 25 deletions(-)

diff --git a/tensap/tensor_algebra/tools/truncator.py b/tensap/tensor_algebra/tools/truncator.py
index 207a7d7..4ec1056 100644
--- a/tensap/tensor_algebra/tools/truncator.py
+++ b/tensap/tensor_algebra/tools/truncator.py
@@ -133,7 +133,7 @@ class Truncator:
             raise ValueError("Wrong tensor order.")
         return out
 
-    def trunc_svd(self, matrix, tolerance=None, power=2):
+    def trunc_svd(self, matrix, tolerance=None, power=2, max_rank=None):
         """
         Compute the truncated svd of the matrix x with relative precision
         self.tolerance (or tolerance if provided) in Schatten p-norm (with p
@@ -149,6 +149,8 @@ class Truncator:
         power : int or 'inf' or float('inf') or numpy.inf, optional
             The integer p of the Schatten-p norm (1 <= p <= inf, p = 2 for
             Frobenius). The default is 2.
+        max_rank : int, optional
+            The maximal rank. The default is self.max_rank.
 
         Returns
         -------
@@ -158,9 +160,13 @@ class Truncator:
         """
         if tolerance is None:
             tolerance = self.tolerance
+        if max_rank is None:
+            max_rank = np.min(self.max_rank)
 
         left, sin_val, right = np.linalg.svd(matrix, full_matrices=False)
-        if power in ("inf", float("inf"), np.inf):
+        if np.max(sin_val) == 0:
+            error = np.zeros(sin_val.size)
+        elif power in ("inf", float("inf"), np.inf):
             error = sin_val / np.max(sin_val)
         else:
             error = np.power(
@@ -175,21 +181,15 @@ class Truncator:
         else:
             ind = np.min(ind) + 1
 
-        ind = int(np.min([ind, self.max_rank]))
+        ind = int(np.min([ind, max_rank]))
         if self.thresholding_parameter is not None and self.thresholding_parameter != 0:
+            kept = np.count_nonzero(sin_val >= self.thresholding_parameter)
             if self.thresholding_type == "soft":
-                sin_val -= self.thresholding_parameter
-                ind = int(np.min([ind, np.nonzero(sin_val >= 0)[0][-1] + 1]))
+                sin_val = np.maximum(sin_val - self.thresholding_parameter, 0)
+                ind = int(np.min([ind, max(kept, 1)]))
             elif self.thresholding_type == "hard":
-                ind = int(
-                    np.min(
-                        [
-                            ind,
-                            np.nonzero(sin_val >= self.thresholding_parameter)[0][-1]
-                            + 1,
-                        ]
-                    )
-                )
+                sin_val = np.where(sin_val >= self.thresholding_parameter, sin_val, 0)
+                ind = int(np.min([ind, max(kept, 1)]))
         left = np.atleast_2d(left[:, :ind])
         sin_val = np.atleast_1d(sin_val[:ind])
         right = np.transpose(np.atleast_2d(right[:ind, :]))
@@ -269,8 +269,9 @@ class Truncator:
             if isinstance(tensor, tensap.FullTensor):
                 vec = np.empty(order, dtype=object)
                 for dim in range(order):
-                    self.max_rank = max_rank[dim]
-                    vec[dim] = self.trunc_svd(tensor.matricize(dim).numpy(), local_tol)
+                    vec[dim] = self.trunc_svd(
+                        tensor.matricize(dim).numpy(), local_tol, max_rank=max_rank[dim]
+                    )
                     vec[dim] = vec[dim].space[0]
                 core = tensor.tensor_matrix_product(np.transpose(vec[0]), 0)
                 for dim in np.arange(1, order):
@@ -329,7 +330,9 @@ class Truncator:
             max_rank = np.repeat(max_rank, tree.nb_nodes)
             max_rank[tree.root - 1] = 1
 
-        local_tol = self.tolerance / np.sqrt(np.count_nonzero(is_active_node) - 1)
+        local_tol = self.tolerance / np.sqrt(
+            max(np.count_nonzero(is_active_node) - 1, 1)
+        )
 
         if isinstance(tensor, tensap.FullTensor):
             root_rank_greater_than_one = tensor.order == len(tree.dim2ind) + 1
@@ -354,8 +357,11 @@ class Truncator:
                         if root_rank_greater_than_one:
                             rep_c = np.concatenate((rep_c, [tensor.order - 1]))
 
-                        self.max_rank = max_rank[nod - 1]
-                        tmp = self.trunc_svd(tensor.matricize(rep).numpy(), local_tol)
+                        tmp = self.trunc_svd(
+                            tensor.matricize(rep).numpy(),
+                            local_tol,
+                            max_rank=max_rank[nod - 1],
+                        )
                         tensors[nod - 1] = tmp.space[0]
                         ranks[nod - 1] = tensors[nod - 1].shape[1]
                         shape_loc = np.hstack((shape[rep], ranks[nod - 1]))
@@ -398,8 +404,12 @@ class Truncator:
                     # Truncation of the Gramian in trace norm for a control
                     # of Frobenius norm of the tensor
                     if gram[nod] is not None:
-                        self.max_rank = max_rank[nod]
-                        tmp = self.trunc_svd(gram[nod], tolerance=local_tol**2, power=1)
+                        tmp = self.trunc_svd(
+                            gram[nod],
+                            tolerance=local_tol**2,
+                            power=1,
+                            max_rank=max_rank[nod],
+                        )
                         shape[nod] = tmp.core.shape[0]
                         mat[nod] = np.transpose(tmp.space[0])
 
@@ -444,8 +454,12 @@ class Truncator:
                     ):
                         # Truncation of the Gramian in trace norm for a control
                         # of Frobenius norm of the tensor
-                        self.max_rank = max_rank[nod - 1]
-                        tmp = self.trunc_svd(gram[nod - 1], local_tol**2, power=1)
+                        tmp = self.trunc_svd(
+                            gram[nod - 1],
+                            local_tol**2,
+                            power=1,
+                            max_rank=max_rank[nod - 1],
+                        )
                         tmp = np.transpose(tmp.space[0])
                         order = out.tensors[nod - 1].order
                         out.tensors[nod - 1] = out.tensors[
@@ -457,8 +471,9 @@ class Truncator:
                             parent - 1
                         ].tensor_matrix_product(tmp, ch_nb - 1)
                 out = out.update_attributes()
-                out.is_orth = True
-                out.orth_node = tree.root
+                # the truncation of a node does not preserve the orthonormality
+                # of its ascendants
+                out.is_orth = False
             else:
                 raise ValueError("Wrong value of _hsvd_type.")
         else:
-- 
2.43.0


From b3ddc6f5207c0a4469a040b6244e5945067db749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:00 +0000
Subject: [PATCH 18/43] fix: FullTensorGrid copies the list of one-dimensional
 grids it is given

---
 tensap/tools/grids.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensap/tools/grids.py b/tensap/tools/grids.py
index 37950ad..9a4940a 100644
--- a/tensap/tools/grids.py
+++ b/tensap/tools/grids.py
@@ -182,6 +182,7 @@ class FullTensorGrid(TensorGrid):
                 np.ndim(grids) == 1
             ), "The first argument must be a unidimensional grid."
             grids = [np.reshape(grids, (-1, 1))] * dim
+        grids = list(grids)
         for i in range(len(grids)):
             if len(grids[i].shape) == 1:
                 grids[i] = np.reshape(grids[i], (-1, 1))
-- 
2.43.0


From f74651df037d3379ae6b2d1e9803bb88bdae369c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:01 +0000
Subject: [PATCH 19/43] fix: FullTensor.reduce_sum and reduce_mean accept lists
 of dimensions as documented

---
 tensap/tensor_algebra/tensors/full_tensor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tensap/tensor_algebra/tensors/full_tensor.py b/tensap/tensor_algebra/tensors/full_tensor.py
index bf608a0..8c13cb5 100644
--- a/tensap/tensor_algebra/tensors/full_tensor.py
+++ b/tensap/tensor_algebra/tensors/full_tensor.py
@@ -614,6 +614,8 @@ class FullTensor:
             The reduced tensor.
 
         """
+        if dims is not None:
+            dims = tuple(np.atleast_1d(dims))
         return FullTensor(np.sum(self.data, dims, keepdims=True))
 
     def reduce_mean(self, dims=None):
@@ -634,6 +636,8 @@ class FullTensor:
             The reduced tensor.
 
         """
+        if dims is not None:
+            dims = tuple(np.atleast_1d(dims))
         return FullTensor(np.mean(self.data, dims, keepdims=True))
 
     def kron(self, tensor2):
-- 
2.43.0


From 1641cb4bff7e7d9a28f7787323ef9455eb12a0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:01 +0000
Subject: [PATCH 20/43] fix: comparison of orthonormal polynomial families no
 longer fails with AttributeError

---
 .../polynomials/orthonormal_polynomials.py       | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/tensap/functions/polynomials/orthonormal_polynomials.py b/tensap/functions/polynomials/orthonormal_polynomials.py
index 0e19241..490f551 100644
--- a/tensap/functions/polynomials/orthonormal_polynomials.py
+++ b/tensap/functions/polynomials/orthonormal_polynomials.py
@@ -61,19 +61,15 @@ class OrthonormalPolynomials(tensap.UnivariatePolynomials):
         return 1, 0
 
     def __eq__(self, poly_2):
-        if not isinstance(poly_2, OrthonormalPolynomials):
+        if type(self) is not type(poly_2):
             out = False
         else:
-            out = (
-                self.measure == poly_2.measure
-                and np.array_equal(
-                    self._recurrence_coefficients, poly_2._recurrence_coefficients
-                )
-                and np.array_equal(
-                    self._orthogonal_polynomials_norms,
-                    poly_2._orthogonal_polynomials_norms,
+            out = self.measure == poly_2.measure and all(
+                np.array_equal(getattr(self, attr, None), getattr(poly_2, attr, None))
+                for attr in (
+                    "_recurrence_coefficients",
+                    "_orthogonal_polynomials_norms",
                 )
-                and self.is_orthonormal == poly_2.is_orthonormal
             )
         return out
 
-- 
2.43.0


From 516467bd661f8d538d7305cff181f387dc6a4d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:01 +0000
Subject: [PATCH 21/43] fix: kron and derivative of polynomial functional bases

---
 tensap/approximation/bases/functional_bases.py            | 2 +-
 tensap/approximation/bases/polynomial_functional_basis.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/tensap/approximation/bases/functional_bases.py b/tensap/approximation/bases/functional_bases.py
index 1739018..53f6a3a 100644
--- a/tensap/approximation/bases/functional_bases.py
+++ b/tensap/approximation/bases/functional_bases.py
@@ -174,7 +174,7 @@ class FunctionalBases:
 
         """
         out = deepcopy(self)
-        out.bases = [x.kron(y) for x, y in zip(self.bases, g.bases)]
+        out.bases = np.array([x.kron(y) for x, y in zip(self.bases, g.bases)])
         return out
 
     def remove_bases(self, ind):
diff --git a/tensap/approximation/bases/polynomial_functional_basis.py b/tensap/approximation/bases/polynomial_functional_basis.py
index 97f81fc..025aa79 100644
--- a/tensap/approximation/bases/polynomial_functional_basis.py
+++ b/tensap/approximation/bases/polynomial_functional_basis.py
@@ -121,7 +121,7 @@ class PolynomialFunctionalBasis(tensap.FunctionalBasis):
 
     def kron(self, q):
         m = np.max(self.indices) + np.max(q.indices)
-        b = PolynomialFunctionalBasis(self.basis, range(m))
+        b = PolynomialFunctionalBasis(self.basis, range(m + 1))
         b.measure = self.measure
 
         def fun(x):
@@ -136,8 +136,8 @@ class PolynomialFunctionalBasis(tensap.FunctionalBasis):
             )
 
         measure = b.measure
-        int_rule = measure.gauss_integration_rule(2 * m)
-        return tensap.SubFunctionalBasis(b, self.projection(fun, int_rule).data)
+        int_rule = measure.gauss_integration_rule(m + 1)
+        return tensap.SubFunctionalBasis(b, b.projection(fun, int_rule).data)
 
     def derivative(self, k, measure=None):
         """
@@ -168,7 +168,7 @@ class PolynomialFunctionalBasis(tensap.FunctionalBasis):
             assert self.measure is not None, "Must specify a Measure."
             measure = self.measure
 
-        nb_pts = int(np.ceil(np.max(self.indices) - (k - 1) / 2))
+        nb_pts = max(int(np.ceil(np.max(self.indices) - (k - 1) / 2)), 1)
         int_rule = measure.gauss_integration_rule(nb_pts)
 
         def fun(x):
-- 
2.43.0


From f8f599c458b0e5030cb1b336964afb039760a6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:01 +0000
Subject: [PATCH 22/43] fix: orthonormalize works on a copy of the functional
 basis

---
 tensap/approximation/bases/functional_basis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/bases/functional_basis.py b/tensap/approximation/bases/functional_basis.py
index 727db80..e5de9d1 100644
--- a/tensap/approximation/bases/functional_basis.py
+++ b/tensap/approximation/bases/functional_basis.py
@@ -21,6 +21,7 @@ Module functional_basis.
 """
 
 from abc import abstractmethod
+from copy import deepcopy
 from scipy.sparse import diags
 import numpy as np
 import tensap
@@ -444,7 +445,7 @@ class FunctionalBasis:
 
         """
         G = self.gram_matrix()
-        out = self
+        out = deepcopy(self)
         if np.linalg.norm(G - np.eye(G.shape[0]), 2):
             A = np.linalg.inv(np.linalg.cholesky(G))
             out = tensap.SubFunctionalBasis(self, np.transpose(A))
-- 
2.43.0


From 54b48e03b0f32aab1f6662c2b3e25836b4d0a667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:51 +0000
Subject: [PATCH 23/43] fix: tree-based full, permute_leaves,
 nodes_permutation_cost no longer alter the tree or their arguments; cat and
 kron with different active nodes; node and leaf searches without possible
 permutation

---
 .../tensors/tree_based_tensor.py              | 36 +++++++++----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 4582857..14b9f35 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -587,6 +587,7 @@ class TreeBasedTensor:
 
         tensors = np.array(self.tensors)
 
+        tree_dims = list(tree.dims)
         for level in np.arange(np.max(tree.level), -1, -1):
             nod_level = tensap.fast_setdiff(tree.nodes_with_level(level), tree.dim2ind)
             for nod in nod_level:
@@ -600,10 +601,10 @@ class TreeBasedTensor:
                             [dims.size],
                         )
                         tensors[child - 1] = None
-                        dims = np.concatenate((tree.dims[child - 1], dims))
+                        dims = np.concatenate((tree_dims[child - 1], dims))
                     else:
-                        dims = np.concatenate((dims, tree.dims[child - 1]))
-                tree.dims[nod - 1] = dims
+                        dims = np.concatenate((dims, tree_dims[child - 1]))
+                tree_dims[nod - 1] = dims
 
         tensor = tensors[tree.root - 1]
         if tensor.order > self.order:
@@ -763,10 +764,9 @@ class TreeBasedTensor:
 
         """
         tree = self.tree
-        ranks = self.ranks
-        ranks[self.non_active_nodes - 1] = self.shape[
-            np.logical_not(self.is_active_node[tree.dim2ind - 1])
-        ]
+        ranks = np.array(self.ranks)
+        non_active_dims = np.logical_not(self.is_active_node[tree.dim2ind - 1])
+        ranks[tree.dim2ind[non_active_dims] - 1] = self.shape[non_active_dims]
 
         cost = np.zeros(tree.nb_nodes)
         for beta in np.arange(1, tree.nb_nodes + 1):
@@ -836,10 +836,9 @@ class TreeBasedTensor:
                         sigma_star[i, :], tolerance / (m_current + m_star)
                     )
 
-            sigma = np.zeros([m_current, 2])
+            sigma = np.zeros([0, 2])
             tensor_current = copy.deepcopy(tensor_sigma)
-            i = 0
-            while i < m_current:
+            for _ in range(m_current):
                 proba_alpha = (
                     tensor_current.ranks[tensor_current.tree.parent(nodes) - 1] ** 2
                 )
@@ -852,11 +851,10 @@ class TreeBasedTensor:
                     beta = np.random.choice(
                         candidates + 1, p=proba_beta / np.sum(proba_beta)
                     )
-                    sigma[i, :] = [alpha, beta]
+                    sigma = np.vstack((sigma, [alpha, beta]))
                     tensor_current = tensor_current.permute_nodes(
-                        sigma[i, :], tolerance / (m_current + m_star)
+                        sigma[-1, :], tolerance / (m_current + m_star)
                     )
-                    i += 1
 
             c_current = tensor_current.storage()
             if c_current < c_star and tensor_current.is_admissible_rank():
@@ -1059,9 +1057,9 @@ class TreeBasedTensor:
                         sigma_star[i, :], tolerance / (m_current + m_star)
                     )
 
-            sigma = np.zeros([m_current, 2])
+            sigma = np.zeros([0, 2])
             tensor_current = copy.deepcopy(tensor_sigma)
-            for i in range(m_current):
+            for _ in range(m_current):
                 proba_alpha = (
                     tensor_current.ranks[tensor_current.tree.parent(nodes) - 1] ** 2
                 )
@@ -1075,9 +1073,9 @@ class TreeBasedTensor:
                     beta = np.random.choice(
                         candidates + 1, p=proba_beta / np.sum(proba_beta)
                     )
-                    sigma[i, :] = [alpha, beta]
+                    sigma = np.vstack((sigma, [alpha, beta]))
                     tensor_current = tensor_current.permute_nodes(
-                        sigma[i, :], tolerance / (m_current + m_star)
+                        sigma[-1, :], tolerance / (m_current + m_star)
                     )
 
             c_current = tensor_current.storage()
@@ -1110,7 +1108,7 @@ class TreeBasedTensor:
 
         """
         tensor = self
-        perm = np.atleast_1d(perm)
+        perm = np.array(np.atleast_1d(perm))
         if not np.array_equal(perm, np.sort(perm)):
             # Decomposition of the permutation into a sequence of elementary
             # permutations of two dimensions
@@ -1360,6 +1358,7 @@ class TreeBasedTensor:
             The concatenated tensors.
 
         """
+        self, tensor2 = self._make_compatible(tensor2)
         tensors = np.array(self.tensors)
         for nod in np.arange(1, self.tree.nb_nodes + 1):
             if self.is_active_node[nod - 1]:
@@ -1383,6 +1382,7 @@ class TreeBasedTensor:
             The tensor resulting from the Kronecker product.
 
         """
+        self, tensor2 = self._make_compatible(tensor2)
         tensors = np.array(self.tensors)
         for nod in np.arange(1, self.tree.nb_nodes + 1):
             if self.is_active_node[nod - 1]:
-- 
2.43.0


From 42e770e5c262d934222498ddef2e264b01e11629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:44 +0000
Subject: [PATCH 24/43] fix: change_root of a tensor with root rank greater
 than one; searches on tensors of order one

---
 .../tensor_algebra/tensors/tree_based_tensor.py   | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 14b9f35..6d73a83 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -664,10 +664,13 @@ class TreeBasedTensor:
         assert x.is_active_node[nod - 1], "Can not make an inactive node the root node."
 
         if x.ranks[x.tree.root - 1] > 1:
-            x.tree = x.tree.addChild(x.tree.root)
-            x.tensors = np.concatenate((x.tensors, []))
-            x = x.update_attributes()
-            x = x.change_root(nod)
+            # The rank mode of the root becomes a new dimension, carried by an
+            # inactive leaf
+            tree = x.tree.add_child(x.tree.root)
+            tensors = np.empty(tree.nb_nodes, dtype=object)
+            tensors[:-1] = x.tensors
+            tensors[-1] = tensap.FullTensor([])
+            x = TreeBasedTensor(tensors, tree).change_root(nod)
         else:
             t = x.tree
             tnew, modifNod = t.change_root(nod)
@@ -809,6 +812,8 @@ class TreeBasedTensor:
             The tree-based tensor with optimized tree.
 
         """
+        if self.order == 1:
+            return copy.deepcopy(self)
         max_iter = int(max_iter)
         nb_nodes = self.tree.nb_nodes
         tensor_star = self
@@ -1031,6 +1036,8 @@ class TreeBasedTensor:
             The tree-based tensor with optimized leaves ordering.
 
         """
+        if self.order == 1:
+            return copy.deepcopy(self)
         max_iter = int(max_iter)
         tensor_star = self
 
-- 
2.43.0


From 2aa0ed252aac44ce74b7f355a6432797536bcf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:37 +0000
Subject: [PATCH 25/43] fix: ranks counted rounding noise, admissibility mixed
 up the sizes of inactive leaves, rank enrichment changed its arguments and
 used shifted node numbers

---
 .../tree_based_tensor_learning.py               | 10 +++++++---
 .../tensor_algebra/tensors/tree_based_tensor.py | 17 +++++++++++++----
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index 36a9778..5e99484 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -493,6 +493,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
             tensor_for_selection = s_local.solve()[0].tensor
         else:
             tensor_for_selection = f.tensor
+            s_local = None
 
         sin_val = tensor_for_selection.singular_values()
 
@@ -505,7 +506,8 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
         dim2ind = np.intersect1d(f.tensor.tree.dim2ind, f.tensor.active_nodes)
         ind = [len(set(x.size)) == 1 for x in f.tensor.tensors[dim2ind - 1]]
         sin_val[dim2ind[ind] - 1] = np.nan
-        sin_val[s_local.rank != tensor_for_selection.ranks] = np.nan
+        if s_local is not None:
+            sin_val[s_local.rank != tensor_for_selection.ranks] = np.nan
 
         sin_val_min = np.array([np.min(x) for x in sin_val])
         sin_val_min[
@@ -1238,12 +1240,13 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
             The enriched tree-based tensor.
 
         """
+        f = deepcopy(f)
         f.is_orth = False
         tree = f.tree
-        enriched_dims = np.nonzero(new_rank > f.ranks)[0]
+        enriched_nodes = np.nonzero(np.array(new_rank) > f.ranks)[0] + 1
 
         for level in np.arange(1, np.max(tree.level) + 1):
-            nod_lvl = np.intersect1d(tree.nodes_with_level(level), enriched_dims)
+            nod_lvl = np.intersect1d(tree.nodes_with_level(level), enriched_nodes)
             for alpha in nod_lvl:
                 gamma = tree.parent(alpha)
                 rank = new_rank[alpha - 1] - f.ranks[alpha - 1]
@@ -1307,6 +1310,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
         """
         # Do not increase the ranks of leaf nodes with rank equal to the
         # dimension of the approximation space.
+        rank = np.array(rank)
         nodes = f.active_nodes
         ind = [f.tree.is_leaf[x] and rank[x] > f.tensors[x].shape[0] for x in nodes - 1]
         rank[nodes[ind] - 1] = [x.shape[0] for x in f.tensors[nodes[ind] - 1]]
diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 6d73a83..b92fe84 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -153,7 +153,15 @@ class TreeBasedTensor:
             The tree-based rank of the tensor.
 
         """
-        return np.array([np.count_nonzero(s) for s in self.singular_values()])
+        ranks = np.zeros(self.tree.nb_nodes, dtype=int)
+        for i, s in enumerate(self.singular_values()):
+            if s is not None:
+                # The singular values are square roots of eigenvalues of
+                # Gramians, known up to the machine precision
+                s = np.array(s, dtype=float)
+                tol = np.sqrt(s.size * np.finfo(float).eps)
+                ranks[i] = np.count_nonzero(s > tol * np.max(s))
+        return ranks
 
     @property
     def active_nodes(self):
@@ -502,9 +510,10 @@ class TreeBasedTensor:
             print("Inactive nodes must have an alpha-rank equal to 0.")
         else:
             is_admiss = True
-            ranks[tensap.fast_intersect(tree.dim2ind, self.non_active_nodes) - 1] = (
-                self.shape[self.non_active_dims]
-            )
+            non_active_dims = self.non_active_dims
+            ranks[tree.dim2ind[non_active_dims] - 1] = np.array(self.shape)[
+                non_active_dims
+            ]
             for nod in tensap.fast_intersect(tree.internal_nodes, self.active_nodes):
                 children = tree.children(nod)
                 active_ch = tensap.fast_intersect(children, self.active_nodes)
-- 
2.43.0


From 46dd00d20de7757ba1b7dd841ed929b07e7a66da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:35 +0000
Subject: [PATCH 26/43] fix: penalised path wrong when several models are
 selected at the same penalty, slope heuristic failed when no penalty changes
 the model

---
 tensap/approximation/tools/model_selection.py | 48 ++++++++++---------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/tensap/approximation/tools/model_selection.py b/tensap/approximation/tools/model_selection.py
index 9c05a7b..6535aa8 100644
--- a/tensap/approximation/tools/model_selection.py
+++ b/tensap/approximation/tools/model_selection.py
@@ -94,36 +94,32 @@ class ModelSelection:
         comp = np.array(self.data["complexity"])
         risk = np.array(self.data["empirical_risk"])
 
+        pen = self.pen_shape(comp)
+        # Among the models of smallest risk (or selected for the same value of
+        # lambda), the one with the smallest penalty is selected
+        ind_min = np.flatnonzero(risk == np.min(risk))
+        ind_min = ind_min[np.argmin(pen[ind_min])]
+
         path = []
         m_path = []
-        lambda_0 = 0
-        lambda_current = 0
-        ind = np.argmin(risk)
-        ok = True
-
-        while ok:
-            with np.errstate(all="ignore"):
-                lambda_current = (risk - risk[ind]) / (
-                    self.pen_shape(comp[ind]) - self.pen_shape(comp)
-                )
-                lambda_current[lambda_current <= lambda_0] = np.nan
-                lambda_current[lambda_current == np.inf] = np.nan
-
-            ok = not np.all(np.isnan(lambda_current))
-            if ok:
-                lambda_0 = np.nanmin(lambda_current)
-                if not np.isnan(lambda_0):
-                    ind = np.nanargmin(lambda_current)
-                    path.append(lambda_0)
-                    m_path.append(ind)
+        ind = ind_min
+        while True:
+            smaller = np.flatnonzero(np.logical_and(pen < pen[ind], risk < np.inf))
+            if smaller.size == 0:
+                break
+            lambda_current = (risk[smaller] - risk[ind]) / (pen[ind] - pen[smaller])
+            lambda_0 = np.min(lambda_current)
+            smaller = smaller[lambda_current == lambda_0]
+            ind = smaller[np.argmin(pen[smaller])]
+            path.append(lambda_0)
+            m_path.append(ind)
 
         if path == []:
             path = 0
-            m_path = 0
+            m_path = ind_min
         else:
             path = np.atleast_1d(path)
             m_path = np.atleast_1d(m_path)
-            ind_min = np.argmin(risk)
             path = np.concatenate(([path[0] / 2], path, [path[-1] * 2]))
             m_path = np.concatenate(([ind_min], m_path, [m_path[-1]]))
         return np.array(path), np.array(m_path)
@@ -170,6 +166,14 @@ class ModelSelection:
 
         if lambda_path is None and m_path is None:
             lambda_path, m_path = self.lambda_path()
+        lambda_path = np.asarray(lambda_path)
+
+        # If the same model is selected for all the values of lambda
+        if lambda_path.size < 2:
+            lambda_hat = 0
+            m_hat = self.m_lambda(lambda_hat)
+            return lambda_hat, m_hat, lambda_path, m_path
+
         l_mid = (lambda_path[:-1] + lambda_path[1:]) / 2
         gaps = comp[self.m_lambda(l_mid[:-1])] - comp[self.m_lambda(l_mid[1:])]
         ind = np.argmax(gaps)
-- 
2.43.0


From 2a748c0cd2fc5cc3864c92fe35fc22e13e5b89fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:26 +0000
Subject: [PATCH 27/43] fix: stored functions returned a tuple, scrambled array
 outputs and shared the caller's arrays; partial evaluation failed for array
 outputs, several fixed variables or no measure

---
 tensap/functions/function.py | 110 +++++++++++++++++------------------
 1 file changed, 55 insertions(+), 55 deletions(-)

diff --git a/tensap/functions/function.py b/tensap/functions/function.py
index cd7bcda..32675f3 100644
--- a/tensap/functions/function.py
+++ b/tensap/functions/function.py
@@ -66,18 +66,14 @@ class Function:
             x = np.expand_dims(x, 1)
 
         if self.store:
-            y = self.store_eval(x)
-            if np.ndim(y) == 2 and np.shape(y)[1] == 1:
-                y = np.squeeze(y, axis=1)
-            return y
+            y = self._store_eval(x)
         else:
             y = self.eval(x)
-            if np.ndim(y) == 2 and np.shape(y)[1] == 1:
-                y = np.squeeze(y, axis=1)
-            f = self
-            if return_f:
-                return y, f
-            return y
+        if np.ndim(y) == 2 and np.shape(y)[1] == 1:
+            y = np.squeeze(y, axis=1)
+        if return_f:
+            return y, self
+        return y
 
     def store_eval(self, x):
         """
@@ -97,55 +93,56 @@ class Function:
             The Function with stored evaluations, for future reuse.
 
         """
-        if np.ndim(x) < 2:
-            x = np.reshape(x, [np.size(x), 1])
+        return np.squeeze(self._store_eval(x)), self
 
-        if self.store and np.size(self._y_stored) != 0:
-            ind_2, ind_1 = np.nonzero(
-                np.all(x == self._x_stored[:, np.newaxis], axis=2)
-            )
+    def _store_eval(self, x):
+        """
+        Evaluate the function, reusing and storing evaluations (see
+        store_eval).
 
-            if np.prod(self.output_shape) != 1:
-                self._y_stored = np.reshape(
-                    self._y_stored, (self._y_stored.shape[0], -1), order="F"
-                )
+        Parameters
+        ----------
+        x : numpy.ndarray
+            The input points.
+
+        Returns
+        -------
+        y : numpy.ndarray
+            The evaluations of the Function, the first dimension being
+            associated with the points.
 
-            y = np.zeros((x.shape[0], self._y_stored.shape[1]))
-            y[ind_1, :] = self._y_stored[ind_2, :]
+        """
+        x = np.array(x)
+        if x.ndim < 2:
+            x = np.reshape(x, [x.size, 1])
 
-            x_new = x[np.setdiff1d(range(x.shape[0]), ind_1), :]
-            if x_new.size != 0:
-                y_new = self.eval(x_new)
-                y[np.setdiff1d(range(x.shape[0]), ind_1), :] = np.reshape(
-                    y_new, (y_new.shape[0], -1)
-                )
-                self._x_stored = np.vstack((self._x_stored, x_new))
-                self._y_stored = np.vstack(
-                    (self._y_stored, np.reshape(y_new, (y_new.shape[0], -1)))
-                )
-            y = np.reshape(
-                y,
-                np.concatenate(([y.shape[0]], np.atleast_1d(self.output_shape))),
-                order="F",
+        if self.store and np.size(self._y_stored) != 0:
+            ind_2, ind_1 = np.nonzero(
+                np.all(x == self._x_stored[:, np.newaxis], axis=2)
             )
-            if np.prod(self.output_shape) != 1:
-                self._y_stored = np.reshape(
-                    self._y_stored,
-                    np.concatenate(
-                        ([self._y_stored.shape[0]], np.atleast_1d(self.output_shape))
-                    ),
-                    order="F",
-                )
+            is_new = np.ones(x.shape[0], dtype=bool)
+            is_new[ind_1] = False
+
+            shape = self._y_stored.shape[1:]
+            y = np.zeros((x.shape[0],) + shape, dtype=self._y_stored.dtype)
+            y[ind_1] = self._y_stored[ind_2]
+
+            if np.any(is_new):
+                y_new = np.asarray(self.eval(x[is_new, :]))
+                y_new = np.reshape(y_new, (y_new.shape[0],) + shape)
+                y = y.astype(np.result_type(y, y_new))
+                y[is_new] = y_new
+                self._x_stored = np.concatenate((self._x_stored, x[is_new, :]))
+                self._y_stored = np.concatenate((self._y_stored, y_new))
         else:
-            y = self.eval(x)
-            if np.ndim(y) < 2:
-                y = np.reshape(y, [np.size(y), 1])
-
+            y = np.array(self.eval(x))
+            if y.ndim < 2:
+                y = np.reshape(y, [y.size, 1])
             self.store = True
             self._x_stored = x
-            self._y_stored = y
+            self._y_stored = np.array(y)
 
-        return np.squeeze(y), self
+        return y
 
     def fplot(self, support=None, n_points=100, *args, **kwargs):
         """
@@ -265,14 +262,17 @@ class Function:
             for x in range(self.dim)
         ]
 
+        x_not_alpha = np.reshape(x_not_alpha, (-1, np.size(not_alpha)))
+
         def fun(x_alpha):
             grid = tensap.FullTensorGrid([x_alpha, x_not_alpha])
             return self.eval(grid.array()[:, ind])
 
-        f_alpha = tensap.UserDefinedFunction(fun, alpha.size)
+        f_alpha = tensap.UserDefinedFunction(fun, alpha.size, self.output_shape)
         f_alpha.store = self.store
         f_alpha.evaluation_at_multiple_points = self.evaluation_at_multiple_points
-        f_alpha.measure = self.measure.marginal(alpha)
+        if self.measure is not None:
+            f_alpha.measure = self.measure.marginal(alpha)
 
         return f_alpha
 
@@ -307,7 +307,7 @@ class Function:
                 measure = self.measure
             else:
                 raise ValueError("Must provide a ProbabilityMeasure.")
-        elif not isinstance(self.measure, tensap.ProbabilityMeasure):
+        elif not isinstance(measure, tensap.ProbabilityMeasure):
             raise ValueError("Must provide a ProbabilityMeasure.")
 
         x = measure.random(n)
@@ -339,12 +339,12 @@ class Function:
         fx = self.eval(x_a)
 
         if isinstance(x, tensap.SparseTensorGrid):
-            if np.all(self.output_shape == 1):
+            if np.all(np.array(self.output_shape) == 1):
                 fx = tensap.SparseTensor(fx, x.indices, x.shape)
             else:
                 raise NotImplementedError("Method not implemented.")
         elif isinstance(x, tensap.FullTensorGrid):
-            if np.all(self.output_shape == 1):
+            if np.all(np.array(self.output_shape) == 1):
                 shape = x.shape
                 if self.dim > 1:
                     fx = np.reshape(fx, shape, order="F")
-- 
2.43.0


From 5ec83adaf7d23ebeb3f90af3e80d1204c1330fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:57 +0000
Subject: [PATCH 28/43] fix: ndim and tensorize of one-dimensional integration
 rules failed

---
 tensap/approximation/integration/integration_rules.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/integration/integration_rules.py b/tensap/approximation/integration/integration_rules.py
index 22acae2..a1b90f6 100644
--- a/tensap/approximation/integration/integration_rules.py
+++ b/tensap/approximation/integration/integration_rules.py
@@ -65,7 +65,7 @@ class IntegrationRule:
             The number of integration points.
 
         """
-        return self.points.shape[1]
+        return 1 if self.points.ndim == 1 else self.points.shape[1]
 
     def integrate(self, fun):
         """
@@ -101,7 +101,10 @@ class IntegrationRule:
             The integration rule in dimension dim.
 
         """
-        points = tensap.FullTensorGrid(self.points, dim)
+        points = self.points
+        if self.ndim() == 1:
+            points = np.ravel(points)
+        points = tensap.FullTensorGrid(points, dim)
         weights = [self.weights] * dim
         return tensap.FullTensorProductIntegrationRule(points, weights)
 
-- 
2.43.0


From 3288f9555246fa7be89611fc7730effa992db4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:46 +0000
Subject: [PATCH 29/43] fix: Orthonormal polynomials were inconsistent with the
 mass of their measure (one(), moment, coefficients and derivatives of
 Lebesgue families, shifted Lebesgue families), EmpiricalPolynomials failed on
 a plain sample, derivatives beyond the degree returned a vector or failed,
 moments over discrete measures could not be computed

---
 .../polynomials/orthonormal_polynomials.py    | 57 +++++++++----------
 tensap/functions/polynomials/polynomials.py   | 18 +++---
 2 files changed, 38 insertions(+), 37 deletions(-)

diff --git a/tensap/functions/polynomials/orthonormal_polynomials.py b/tensap/functions/polynomials/orthonormal_polynomials.py
index 490f551..13a890a 100644
--- a/tensap/functions/polynomials/orthonormal_polynomials.py
+++ b/tensap/functions/polynomials/orthonormal_polynomials.py
@@ -56,9 +56,8 @@ class OrthonormalPolynomials(tensap.UnivariatePolynomials):
     def is_orthonormal():
         return True
 
-    @staticmethod
-    def one():
-        return 1, 0
+    def one(self):
+        return np.sqrt(self.measure.mass()), 0
 
     def __eq__(self, poly_2):
         if type(self) is not type(poly_2):
@@ -105,7 +104,7 @@ class OrthonormalPolynomials(tensap.UnivariatePolynomials):
         ):
             out = np.zeros(ind.shape[0])
             if ind.shape[1] == 1:
-                out[ind[:, 0] == 0] = 1
+                out[ind[:, 0] == 0] = np.sqrt(self.measure.mass())
             else:
                 out[ind[:, 0] == ind[:, 1]] = 1
         else:
@@ -134,6 +133,7 @@ class OrthonormalPolynomials(tensap.UnivariatePolynomials):
                     - np.sqrt(b[deg]) * coef[deg - 1, :]
                 ) / np.sqrt(b[deg + 1])
 
+        coef /= np.sqrt(self.measure.mass())
         return coef[ind, :]
 
     def polyval(self, ind, x):
@@ -175,7 +175,7 @@ class OrthonormalPolynomials(tensap.UnivariatePolynomials):
             out[:, 0] = 0
             if max_ind > 0:
                 if k == 1:
-                    out[:, 1] = 1 / np.sqrt(b[1])
+                    out[:, 1] = 1 / np.sqrt(b[1] * self.measure.mass())
                 else:
                     out[:, 1] = 0
             for deg in np.arange(2, max_ind + 1):
@@ -305,9 +305,8 @@ class ShiftedOrthonormalPolynomials(tensap.UnivariatePolynomials):
     def is_orthonormal():
         return True
 
-    @staticmethod
-    def one():
-        return 1, 0
+    def one(self):
+        return np.sqrt(self.measure.mass()), 0
 
     def __eq__(self, poly_2):
         if not isinstance(poly_2, ShiftedOrthonormalPolynomials):
@@ -344,30 +343,32 @@ class ShiftedOrthonormalPolynomials(tensap.UnivariatePolynomials):
         """
         return self.shift + self.scaling * self.polynomials.truncated_domain()
 
-    def mean(self, ind, *measure):
-        return self.polynomials.mean(ind, *measure)
+    def _normalization(self):
+        """
+        Return the factor making the shifted polynomials of norm one when the
+        mass of the measure is changed by the shift.
 
-    def moment(self, ind, *measure):
-        if measure:
-            if measure[0] == self.measure:
-                measure = ()
-            else:
-                measure = tuple(
-                    [measure[0].shift(-self.shift / self.scaling, 1 / self.scaling)]
-                )
-        return self.polynomials.moment(ind, *measure)
+        """
+        return np.sqrt(self.polynomials.measure.mass() / self.measure.mass())
+
+    def moment(self, ind, measure=None):
+        if measure is not None and not measure == self.measure:
+            return super().moment(ind, measure)
+        return self.polynomials.moment(ind) * self._normalization() ** (
+            np.atleast_2d(ind).shape[1] - 2
+        )
 
     def polyval(self, ind, x):
-        x = (x - self.shift) / self.scaling
-        return self.polynomials.polyval(ind, x)
+        x = (np.asarray(x) - self.shift) / self.scaling
+        return self.polynomials.polyval(ind, x) * self._normalization()
 
     def d_polyval(self, ind, x):
-        x = (x - self.shift) / self.scaling
-        return self.polynomials.d_polyval(ind, x) / self.scaling
+        return self.dn_polyval(1, ind, x)
 
     def dn_polyval(self, n, ind, x):
-        x = (x - self.shift) / self.scaling
-        return self.polynomials.dn_polyval(n, ind, x) / (self.scaling**n)
+        x = (np.asarray(x) - self.shift) / self.scaling
+        val = self.polynomials.dn_polyval(n, ind, x) * self._normalization()
+        return val / (self.scaling**n)
 
     def random(self, ind, n=1, measure=None):
         """
@@ -394,9 +395,7 @@ class ShiftedOrthonormalPolynomials(tensap.UnivariatePolynomials):
             The randomly drawn input points.
 
         """
-        fx, x = self.polynomials.random(ind, n, measure)
-        x = self.shift + self.scaling * x
-        return fx, x
+        return OrthonormalPolynomials.random(self, ind, n, measure)
 
     def roots(self, n):
         """
@@ -628,7 +627,7 @@ class EmpiricalPolynomials(OrthonormalPolynomials):
             self.measure = sample.get_standard_random_variable()
         else:
             # Standardization of the sample
-            x = np.reshape(self.sample, [-1, 1])
+            x = np.reshape(sample, [-1, 1])
             x = (x - np.tile(np.mean(x, 0), (x.shape[0], 1))) / np.tile(
                 np.std(x, 0), (x.shape[0], 1)
             )
diff --git a/tensap/functions/polynomials/polynomials.py b/tensap/functions/polynomials/polynomials.py
index db54d37..aa64d50 100644
--- a/tensap/functions/polynomials/polynomials.py
+++ b/tensap/functions/polynomials/polynomials.py
@@ -95,6 +95,9 @@ class UnivariatePolynomials(ABC):
             of order contained in ind.
 
         """
+        if n > np.max(ind):
+            return np.zeros((len(ind), 1))
+
         coef = np.prod(
             np.tile(np.arange(np.max(ind) - n + 1), (n, 1))
             + np.tile(
@@ -102,10 +105,7 @@ class UnivariatePolynomials(ABC):
             ),
             0,
         )
-        coef = self.poly_coeff(ind)[:, n:] * np.tile(coef, (len(ind), 1))
-        if coef.size == 0:
-            coef = np.zeros(len(ind))
-        return coef
+        return self.poly_coeff(ind)[:, n:] * np.tile(coef, (len(ind), 1))
 
     def d_polyval(self, ind, x):
         """
@@ -220,10 +220,12 @@ class UnivariatePolynomials(ABC):
         ind = np.atleast_2d(ind)
         out = np.zeros(ind.shape[0])
 
-        max_deg = np.max(np.sum(ind, 1))  # Maximum degree of the product
-        nb_pts = int(np.ceil((max_deg + 1) / 2))  # Number of points
-
-        G = measure.gauss_integration_rule(nb_pts)
+        if isinstance(measure, (tensap.DiscreteRandomVariable, tensap.DiscreteMeasure)):
+            G = measure.integration_rule()
+        else:
+            max_deg = np.max(np.sum(ind, 1))  # Maximum degree of the product
+            nb_pts = int(np.ceil((max_deg + 1) / 2))  # Number of points
+            G = measure.gauss_integration_rule(nb_pts)
         for i in range(ind.shape[0]):
             # Creation of the function to integrate
             def poly(x):
-- 
2.43.0


From e5e1228901192c93cea26f8b6cd5edc2251e9af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:02 +0000
Subject: [PATCH 30/43] fix: Laws were inconsistent: quantiles of discrete
 variables with unsorted values, equality of discrete variables and of product
 measures, stored moments indexed by position, moments beyond the number of
 atoms, kernel cdf with another bandwidth than the density and infinitely
 recursive quantiles, statistics of mixed vectors, grids with one number per
 dimension, samples of multivariate discrete measures, random_multi_indices
 overwriting its argument

---
 tensap/functions/measures/discrete_measure.py |  4 +++-
 .../measures/discrete_random_variable.py      | 17 +++++---------
 .../measures/empirical_random_variable.py     | 22 +++++++++++++-----
 .../measures/normal_random_variable.py        |  2 +-
 tensap/functions/measures/product_measure.py  |  8 +++++--
 .../measures/random_multi_indices.py          |  2 +-
 tensap/functions/measures/random_variable.py  | 23 +++++++++++--------
 tensap/functions/measures/random_vector.py    | 13 ++++++-----
 8 files changed, 53 insertions(+), 38 deletions(-)

diff --git a/tensap/functions/measures/discrete_measure.py b/tensap/functions/measures/discrete_measure.py
index 852ffd3..00e3ac0 100644
--- a/tensap/functions/measures/discrete_measure.py
+++ b/tensap/functions/measures/discrete_measure.py
@@ -166,4 +166,6 @@ class DiscreteMeasure(tensap.Measure):
             self.weights / np.sum(self.weights),
         )
         ind = Y.icdf(np.random.rand(n)).astype(int)
-        return np.squeeze(self.values[ind, :], 1)
+        if self.ndim() == 1:
+            return self.values[ind, 0]
+        return self.values[ind, :]
diff --git a/tensap/functions/measures/discrete_random_variable.py b/tensap/functions/measures/discrete_random_variable.py
index bc7a4a5..882d74c 100644
--- a/tensap/functions/measures/discrete_random_variable.py
+++ b/tensap/functions/measures/discrete_random_variable.py
@@ -167,7 +167,7 @@ class DiscreteRandomVariable(tensap.RandomVariable):
         """
         return tensap.IntegrationRule(self.values, self.probabilities)
 
-    def orthonormal_polynomials(self):
+    def orthonormal_polynomials(self, *max_degree):
         """
         Return orthonormal polynomials associated with
         the DiscreteRandomVariable.
@@ -224,16 +224,11 @@ class DiscreteRandomVariable(tensap.RandomVariable):
 
         """
         p = np.array(p)
-        shape = p.shape
-        v = np.vstack(([-np.inf], np.reshape(self.values, (-1, 1))))
-        F = np.vstack(([0], np.reshape(self.probabilities, (-1, 1))))
-
-        M = p.size
-        p = np.tile(np.reshape(p, (1, M)), (F.size, 1))
-        F = np.tile(np.reshape(np.cumsum(F), (-1, 1)), (1, M))
-        return np.reshape(
-            v[np.nonzero(np.cumsum(np.transpose(F >= p), 1) == 1)[1]], shape
-        )
+        order = np.argsort(np.ravel(self.values), kind="stable")
+        v = np.concatenate(([-np.inf], np.ravel(self.values)[order]))
+        F = np.cumsum(np.concatenate(([0], self.probabilities[order])))
+        F = F / F[-1]
+        return v[np.searchsorted(F, p)]
 
     def mean(self):
         return np.matmul(np.transpose(self.probabilities), self.values)
diff --git a/tensap/functions/measures/empirical_random_variable.py b/tensap/functions/measures/empirical_random_variable.py
index 941f106..7b107f3 100644
--- a/tensap/functions/measures/empirical_random_variable.py
+++ b/tensap/functions/measures/empirical_random_variable.py
@@ -91,6 +91,7 @@ class EmpiricalRandomVariable(tensap.RandomVariable):
         # If Y is the standard random variable associated to X
         if (
             isinstance(Y, (EmpiricalRandomVariable, tensap.EmpiricalRandomVariable))
+            and np.shape(Y.sample) == np.shape(self.sample)
             and np.linalg.norm(
                 Y.sample - (self.sample - np.mean(self.sample)) / np.std(self.sample)
             )
@@ -159,8 +160,9 @@ class EmpiricalRandomVariable(tensap.RandomVariable):
         return self.sample, self.bandwidth
 
     def cdf(self, x):
-        kde = scipy.stats.gaussian_kde(self.sample, self.bandwidth)
-        return np.vectorize(lambda z: kde.integrate_box_1d(-np.inf, z))(x)
+        xi, h = self.get_parameters()
+        x = np.expand_dims(x, -1)
+        return np.mean(scipy.stats.norm.cdf((x - np.ravel(xi)) / h), -1)
 
     def icdf(self, x, *args, **kwargs):
         """
@@ -181,12 +183,20 @@ class EmpiricalRandomVariable(tensap.RandomVariable):
 
         """
         # TODO Optimize the method
-        sup = self.truncated_support()
-        return np.vectorize(
-            lambda p: scipy.optimize.brentq(
+        # The bounds are such that the cdf is equal to 0 and 1 respectively
+        sup = [
+            np.min(self.sample) - 40 * self.bandwidth,
+            np.max(self.sample) + 40 * self.bandwidth,
+        ]
+
+        def quantile(p):
+            if p in (0, 1):
+                return self.support()[int(p)]
+            return scipy.optimize.brentq(
                 lambda y: self.cdf(y) - p, sup[0], sup[1], *args, **kwargs
             )
-        )(x)
+
+        return np.vectorize(quantile, otypes=[float])(x)
 
     def pdf(self, x):
         xi, h = self.get_parameters()
diff --git a/tensap/functions/measures/normal_random_variable.py b/tensap/functions/measures/normal_random_variable.py
index 5f4b2fa..0229e19 100644
--- a/tensap/functions/measures/normal_random_variable.py
+++ b/tensap/functions/measures/normal_random_variable.py
@@ -174,7 +174,7 @@ class NormalRandomVariable(tensap.RandomVariable):
         """
         return array([-inf, inf])
 
-    def orthonormal_polynomials(self):
+    def orthonormal_polynomials(self, *max_degree):
         """
         Return orthonormal polynomials associated with
         the NormalRandomVariable.
diff --git a/tensap/functions/measures/product_measure.py b/tensap/functions/measures/product_measure.py
index f3630ba..d85bce4 100644
--- a/tensap/functions/measures/product_measure.py
+++ b/tensap/functions/measures/product_measure.py
@@ -68,7 +68,11 @@ class ProductMeasure(tensap.Measure):
         )
 
     def __eq__(self, measure_2):
-        return np.all([x == y for x, y in zip(self.measures, measure_2.measures)])
+        return (
+            isinstance(measure_2, ProductMeasure)
+            and len(self.measures) == len(measure_2.measures)
+            and all(x == y for x, y in zip(self.measures, measure_2.measures))
+        )
 
     def is_discrete(self):
         return np.all([x.is_discrete() for x in self.measures])
@@ -143,7 +147,7 @@ class ProductMeasure(tensap.Measure):
         return [x.truncated_support() for x in self.measures]
 
     def marginal(self, ind):
-        return ProductMeasure([self.measures[x] for x in ind])
+        return ProductMeasure([self.measures[x] for x in np.atleast_1d(ind)])
 
     def pdf(self, x):
         # TODO pdf
diff --git a/tensap/functions/measures/random_multi_indices.py b/tensap/functions/measures/random_multi_indices.py
index f8eff61..a059149 100644
--- a/tensap/functions/measures/random_multi_indices.py
+++ b/tensap/functions/measures/random_multi_indices.py
@@ -44,7 +44,7 @@ def random_multi_indices(shape):
     order = len(shape)
 
     if np.all([isinstance(x, (list, np.ndarray)) for x in shape]):
-        ind = shape
+        ind = list(shape)
     else:
         ind = []
         for dim in range(order):
diff --git a/tensap/functions/measures/random_variable.py b/tensap/functions/measures/random_variable.py
index fccc011..7009247 100644
--- a/tensap/functions/measures/random_variable.py
+++ b/tensap/functions/measures/random_variable.py
@@ -75,7 +75,7 @@ class RandomVariable(tensap.ProbabilityMeasure):
             param_1 = self.get_parameters()
             param_2 = rv_2.get_parameters()
             for ind in zip(param_1, param_2):
-                is_equal = is_equal and (ind[0] == ind[1])
+                is_equal = is_equal and np.array_equal(ind[0], ind[1])
         return is_equal
 
     def __neq__(self, rv_2):
@@ -384,19 +384,22 @@ class RandomVariable(tensap.ProbabilityMeasure):
 
         """
         ind = np.atleast_1d(ind)
-        if np.size(self.moments) - 1 >= np.max(ind):
-            out = self.moments[ind]
-        else:
-            out = np.zeros(np.size(ind))
-            nb_pts = int(np.ceil((np.max(ind) + 1) / 2))
-            G = self.gauss_integration_rule(nb_pts)
-            for nb, ind_loc in enumerate(ind):
-                out[nb] = G.integrate(lambda x: x**ind_loc)
+        moments = self.moments
+        if np.size(moments) - 1 < np.max(ind):
+            moments = np.zeros(np.max(ind) + 1)
+            if isinstance(self, tensap.DiscreteRandomVariable):
+                G = self.integration_rule()
+            else:
+                nb_pts = int(np.ceil((np.max(ind) + 1) / 2))
+                G = self.gauss_integration_rule(nb_pts)
+            for order in range(moments.size):
+                moments[order] = np.squeeze(G.integrate(lambda x: x**order))
+        out = moments[ind]
 
         if nargout == 1:
             return out
         X = deepcopy(self)
-        X.moments = out
+        X.moments = moments
         return out, X
 
     def mean(self):
diff --git a/tensap/functions/measures/random_vector.py b/tensap/functions/measures/random_vector.py
index 08d2edf..1b090a8 100644
--- a/tensap/functions/measures/random_vector.py
+++ b/tensap/functions/measures/random_vector.py
@@ -164,10 +164,11 @@ class RandomVector(tensap.ProbabilityMeasure):
         ), "The method only works for independent copulas."
 
         d = self.size
-        if np.size(n) == 1 and n < 1:
-            n = int(np.ceil(n ** (-1 / d)))
+        n = np.atleast_1d(n)
+        if n.size == 1 and n[0] < 1:
+            n = np.ceil(n ** (-1 / d)).astype(int)
 
-        if np.size(n) != d:
+        if n.size != d:
             n = np.full(d, n)
 
         b = [x.iso_probabilistic_grid(y) for x, y in zip(self.random_variables, n)]
@@ -301,7 +302,7 @@ class RandomVector(tensap.ProbabilityMeasure):
             The mean of the random variable.
 
         """
-        return np.atleast_1d([x.mean() for x in self.random_variables])
+        return np.concatenate([np.ravel(x.mean()) for x in self.random_variables])
 
     def std(self):
         """
@@ -313,7 +314,7 @@ class RandomVector(tensap.ProbabilityMeasure):
             The standard deviation of the random variable.
 
         """
-        return np.atleast_1d([x.std() for x in self.random_variables])
+        return np.concatenate([np.ravel(x.std()) for x in self.random_variables])
 
     def variance(self):
         """
@@ -325,7 +326,7 @@ class RandomVector(tensap.ProbabilityMeasure):
             The variance of the random variable.
 
         """
-        return np.atleast_1d([x.variance() for x in self.random_variables])
+        return np.concatenate([np.ravel(x.variance()) for x in self.random_variables])
 
     def transfer(self, Y, x):
         """
-- 
2.43.0


From bc2071d5b1f54397e938eeca2d5477cc3b4825d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:12 +0000
Subject: [PATCH 31/43] fix: Functional bases and tensors: coefficients of
 matrix-valued functions reordered, conditional expectations and projections
 of vector-valued functions failed, bases without some variables kept the
 measure (and indices) of all variables, random evaluations of product bases
 refused, mean of full product bases in another order than their values, delta
 bases with wrong cardinal and printing, gradients, sums, norms and dot
 products of functional tensors failed, partial evaluations of functional
 tensors misplaced dimensions, derivatives of sub-bases and of canonical
 polynomials wrong, equality of bases with different numbers of variables or
 indices

---
 .../bases/delta_functional_basis.py           |  5 +--
 .../full_tensor_product_functional_basis.py   | 16 ++++++--
 .../approximation/bases/functional_bases.py   | 12 ++++--
 .../approximation/bases/functional_basis.py   | 14 ++-----
 .../bases/functional_basis_array.py           | 19 +++++----
 .../bases/polynomial_functional_basis.py      |  3 ++
 .../sparse_tensor_product_functional_basis.py | 18 +++++++--
 .../bases/sub_functional_basis.py             | 11 +++---
 tensap/functions/functional_tensor.py         | 39 ++++++++++++-------
 .../tensors/tree_based_tensor.py              |  4 +-
 10 files changed, 89 insertions(+), 52 deletions(-)

diff --git a/tensap/approximation/bases/delta_functional_basis.py b/tensap/approximation/bases/delta_functional_basis.py
index 99dce90..528c281 100755
--- a/tensap/approximation/bases/delta_functional_basis.py
+++ b/tensap/approximation/bases/delta_functional_basis.py
@@ -80,11 +80,10 @@ class DeltaFunctionalBasis(tensap.FunctionalBasis):
         if measure is not None:
             self.input_dimension = measure.ndim()
         else:
-            self.input_dimension = 1
+            self.input_dimension = 1 if values is None else values.shape[1]
 
     def eval(self, x):
         x = np.atleast_1d(x)
-        print(x)
         dim = self.values.shape[0]
         out = np.zeros((np.shape(x)[0], dim))
         for mu in range(dim):
@@ -99,4 +98,4 @@ class DeltaFunctionalBasis(tensap.FunctionalBasis):
         return self.input_dimension
 
     def cardinal(self):
-        return self.values.shape[1]
+        return self.values.shape[0]
diff --git a/tensap/approximation/bases/full_tensor_product_functional_basis.py b/tensap/approximation/bases/full_tensor_product_functional_basis.py
index 41e62db..4f66fe0 100644
--- a/tensap/approximation/bases/full_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/full_tensor_product_functional_basis.py
@@ -97,6 +97,7 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
     def orthonormalize(self):
         out = deepcopy(self)
         out.bases = out.bases.orthonormalize()
+        out.is_orthonormal = True
         return out
 
     def remove_bases(self, ind):
@@ -116,6 +117,8 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
         """
         out = deepcopy(self)
         out.bases = out.bases.remove_bases(ind)
+        out.measure = out.bases.measure
+        out.is_orthonormal = np.all([x.is_orthonormal for x in out.bases.bases])
         return out
 
     def keep_bases(self, ind):
@@ -135,6 +138,8 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
         """
         out = deepcopy(self)
         out.bases = out.bases.keep_bases(ind)
+        out.measure = out.bases.measure
+        out.is_orthonormal = np.all([x.is_orthonormal for x in out.bases.bases])
         return out
 
     def remove_mapping(self, ind):
@@ -162,12 +167,13 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
         """
         out = deepcopy(self)
         out.bases = out.bases.transpose(perm)
+        out.measure = out.bases.measure
         return out
 
     def mean(self, *args):
         H = self.bases.mean(None, *args)
         H = tensap.CanonicalTensor([np.reshape(x, [-1, 1]) for x in H], [1])
-        return np.ravel(H.full().numpy())
+        return np.ravel(H.full().numpy(), order="F")
 
     def conditional_expectation(self, dims, *args):
         ind = tensap.MultiIndices.bounded_by(self.bases.cardinals() - 1)
@@ -303,8 +309,12 @@ class FullTensorProductFunctionalBasis(tensap.FunctionalBasis):
         # TODO Create an empty class Tensor for when using isinstance?
         elif isinstance(
             fun,
-            (tensap.FullTensor, tensap.CanonicalTensor, tensap.TreeBasedTensor),
-            tensap.DiagonalTensor,
+            (
+                tensap.FullTensor,
+                tensap.CanonicalTensor,
+                tensap.TreeBasedTensor,
+                tensap.DiagonalTensor,
+            ),
         ):
             y = fun
         else:
diff --git a/tensap/approximation/bases/functional_bases.py b/tensap/approximation/bases/functional_bases.py
index 53f6a3a..0127193 100644
--- a/tensap/approximation/bases/functional_bases.py
+++ b/tensap/approximation/bases/functional_bases.py
@@ -193,7 +193,8 @@ class FunctionalBases:
 
         """
         out = deepcopy(self)
-        out.bases = np.delete(self.bases, ind)
+        out.bases = np.delete(out.bases, ind)
+        out.measure = tensap.ProductMeasure([x.measure for x in out.bases])
         return out
 
     def keep_bases(self, ind):
@@ -212,7 +213,8 @@ class FunctionalBases:
 
         """
         out = deepcopy(self)
-        out.bases = out.bases[ind]
+        out.bases = np.atleast_1d(out.bases[ind])
+        out.measure = tensap.ProductMeasure([x.measure for x in out.bases])
         return out
 
     def transpose(self, perm):
@@ -232,6 +234,7 @@ class FunctionalBases:
         """
         out = deepcopy(self)
         out.bases = out.bases[perm]
+        out.measure = tensap.ProductMeasure([x.measure for x in out.bases])
         return out
 
     def __eq__(self, bases_2):
@@ -239,7 +242,8 @@ class FunctionalBases:
             out = False
         else:
             out = (
-                np.all([x == y for x, y in zip(self.bases, bases_2.bases)])
+                len(self) == len(bases_2)
+                and np.all([x == y for x, y in zip(self.bases, bases_2.bases)])
                 and self.measure == bases_2.measure
             )
         return out
@@ -399,7 +403,7 @@ class FunctionalBases:
         """
         if measure is not None:
             assert isinstance(
-                measure, tensap.ProbabilityMeasure
+                measure, (tensap.ProbabilityMeasure, tensap.ProductMeasure)
             ), "Must provide a ProbabilityMeasure."
             x = measure.marginal(dims).random(int(n))
             bases_eval, x = self.eval(x, dims, 2)
diff --git a/tensap/approximation/bases/functional_basis.py b/tensap/approximation/bases/functional_basis.py
index e5de9d1..6941f2f 100644
--- a/tensap/approximation/bases/functional_basis.py
+++ b/tensap/approximation/bases/functional_basis.py
@@ -82,7 +82,7 @@ class FunctionalBasis:
         """
         if measure is None:
             measure = self.measure
-        if not isinstance(measure, tensap.ProbabilityMeasure):
+        if not isinstance(measure, (tensap.ProbabilityMeasure, tensap.ProductMeasure)):
             raise ValueError("Must provide a ProbabilityMeasure.")
 
         x = measure.random(n)
@@ -289,10 +289,7 @@ class FunctionalBasis:
 
         """
 
-        try:
-            y = fun(G.points)
-        except Exception:
-            pass
+        y = fun(G.points) if callable(fun) else fun
 
         A = self.eval(G.points)
         W = diags(np.sqrt(G.weights))
@@ -327,10 +324,7 @@ class FunctionalBasis:
 
         A = self.eval(G.points)
         W = diags(G.weights)
-        try:
-            y = fun(G.points)
-        except Exception:
-            pass
+        y = fun(G.points) if callable(fun) else fun
 
         u = np.matmul(np.transpose(A), W.dot(y))
 
@@ -446,7 +440,7 @@ class FunctionalBasis:
         """
         G = self.gram_matrix()
         out = deepcopy(self)
-        if np.linalg.norm(G - np.eye(G.shape[0]), 2):
+        if np.linalg.norm(G - np.eye(G.shape[0]), 2) > 1e-14:
             A = np.linalg.inv(np.linalg.cholesky(G))
             out = tensap.SubFunctionalBasis(self, np.transpose(A))
         out.is_orthonormal = True
diff --git a/tensap/approximation/bases/functional_basis_array.py b/tensap/approximation/bases/functional_basis_array.py
index bbc4228..ee0da4a 100644
--- a/tensap/approximation/bases/functional_basis_array.py
+++ b/tensap/approximation/bases/functional_basis_array.py
@@ -74,7 +74,7 @@ class FunctionalBasisArray(tensap.Function):
         self.shape = np.atleast_1d(shape)
         self.output_shape = self.shape
         self.data = np.reshape(
-            self.data, np.concatenate(([basis.cardinal()], self.shape))
+            self.data, np.concatenate(([basis.cardinal()], self.shape)), order="F"
         )
 
     def __add__(self, g):
@@ -364,7 +364,9 @@ class FunctionalBasisArray(tensap.Function):
                 self.data, [self.basis.cardinal(), np.prod(self.shape)], order="F"
             ),
         )
-        f.data = np.reshape(f.data, (f.data.shape[0], f.shape), order="F")
+        f.data = np.reshape(
+            f.data, np.concatenate(([f.data.shape[0]], f.shape)), order="F"
+        )
         f.basis = h.basis
         return f
 
@@ -390,7 +392,7 @@ class FunctionalBasisArray(tensap.Function):
         v = np.zeros((np.shape(alpha)[0], np.prod(self.shape)))
         for i in range(np.shape(alpha)[0]):
             u = alpha[i, :]
-            if np.all([isinstance(x, bool) for x in u]):
+            if np.all([isinstance(x, (bool, np.bool_)) for x in u]):
                 u = np.nonzero(u)[0]
 
             if np.size(u) == 0:
@@ -398,7 +400,7 @@ class FunctionalBasisArray(tensap.Function):
             else:
                 mi = self.conditional_expectation(u)
                 vi = mi.dot_product_expectation(mi) - m**2
-                v[i, :] = np.ravel(vi)
+                v[i, :] = np.ravel(vi, order="F")
 
         return np.reshape(
             v, np.concatenate(([np.shape(alpha)[0]], self.shape)), order="F"
@@ -617,12 +619,15 @@ class FunctionalBasisArray(tensap.Function):
         ):
             d = np.zeros((basis.cardinal(), np.prod(self.shape)))
             _, ia, ib = self.basis.indices.intersect_indices(indices)
-            d[ib, :] = self.data[ia, :]
+            data = np.reshape(self.data, [self.basis.cardinal(), -1], order="F")
+            d[ib, :] = data[ia, :]
             if np.ndim(self.data) != np.ndim(d):
-                d = np.reshape(d, [basis.cardinal(), self.shape], order="F")
+                d = np.reshape(
+                    d, np.concatenate(([basis.cardinal()], self.shape)), order="F"
+                )
 
             if isinstance(basis, tensap.FullTensorProductFunctionalBasis):
-                H = tensap.FullTensorProductIntegrationRule(basis.bases)
+                H = tensap.FullTensorProductFunctionalBasis(basis.bases)
             elif isinstance(basis, tensap.SparseTensorProductFunctionalBasis):
                 H = tensap.SparseTensorProductFunctionalBasis(basis.bases, indices)
             g = FunctionalBasisArray(d, H, self.shape)
diff --git a/tensap/approximation/bases/polynomial_functional_basis.py b/tensap/approximation/bases/polynomial_functional_basis.py
index 025aa79..bc807c0 100644
--- a/tensap/approximation/bases/polynomial_functional_basis.py
+++ b/tensap/approximation/bases/polynomial_functional_basis.py
@@ -169,6 +169,9 @@ class PolynomialFunctionalBasis(tensap.FunctionalBasis):
             measure = self.measure
 
         nb_pts = max(int(np.ceil(np.max(self.indices) - (k - 1) / 2)), 1)
+        if not self.is_orthonormal:
+            # least-squares projection on polynomials of degree max(indices)
+            nb_pts = max(nb_pts, np.max(self.indices) + 1)
         int_rule = measure.gauss_integration_rule(nb_pts)
 
         def fun(x):
diff --git a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
index 66bfa28..f2c8a74 100644
--- a/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
+++ b/tensap/approximation/bases/sparse_tensor_product_functional_basis.py
@@ -73,7 +73,11 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
         if not isinstance(G, SparseTensorProductFunctionalBasis):
             out = False
         else:
-            out = np.all(self.bases == G.bases) and np.all(self.indices == G.indices)
+            out = (
+                np.all(self.bases == G.bases)
+                and np.shape(self.indices.array) == np.shape(G.indices.array)
+                and np.all(self.indices == G.indices)
+            )
         return out
 
     def length(self):
@@ -117,6 +121,9 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
         """
         out = deepcopy(self)
         out.bases = out.bases.remove_bases(ind)
+        out.indices = out.indices.remove_dims(ind)
+        out.measure = out.bases.measure
+        out.is_orthonormal = np.all([x.is_orthonormal for x in out.bases.bases])
         return out
 
     def keep_bases(self, ind):
@@ -136,6 +143,9 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
         """
         out = deepcopy(self)
         out.bases = out.bases.keep_bases(ind)
+        out.indices = out.indices.keep_dims(ind)
+        out.measure = out.bases.measure
+        out.is_orthonormal = np.all([x.is_orthonormal for x in out.bases.bases])
         return out
 
     def remove_mapping(self, ind):
@@ -163,6 +173,8 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
         """
         out = deepcopy(self)
         out.bases = out.bases.transpose(perm)
+        out.measure = out.bases.measure
+        out.indices.array = out.indices.array[:, perm]
         return out
 
     def mean(self, *args):
@@ -174,7 +186,7 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
 
     def conditional_expectation(self, dims, *args):
         dims = np.atleast_1d(dims)
-        if np.all([isinstance(x, bool) for x in dims]):
+        if np.all([isinstance(x, (bool, np.bool_)) for x in dims]):
             dims = np.nonzero(dims)[0]
 
         dims_C = np.setdiff1d(range(self.ndim()), dims)
@@ -205,7 +217,7 @@ class SparseTensorProductFunctionalBasis(tensap.FunctionalBasis):
 
         else:
             h = tensap.FunctionalBasisArray(
-                np.eye(self.cardinal()), self, [self.cardinal(), 1]
+                np.eye(self.cardinal()), self, self.cardinal()
             )
         return h
 
diff --git a/tensap/approximation/bases/sub_functional_basis.py b/tensap/approximation/bases/sub_functional_basis.py
index 4fceb56..2732ebb 100644
--- a/tensap/approximation/bases/sub_functional_basis.py
+++ b/tensap/approximation/bases/sub_functional_basis.py
@@ -66,6 +66,7 @@ class SubFunctionalBasis(tensap.FunctionalBasis):
                 self.basis = np.zeros((self.underlying_basis.cardinal(), 0))
             else:
                 self.basis = basis
+            basis = self.basis
 
             self.measure = underlying_basis.measure
 
@@ -75,7 +76,7 @@ class SubFunctionalBasis(tensap.FunctionalBasis):
                     np.matmul(np.transpose(basis), basis) - np.eye(basis.shape[1])
                 )
                 / np.sqrt(basis.shape[1])
-                < 1e-15
+                < 1e-14
             ):
                 self.is_orthonormal = True
 
@@ -140,7 +141,7 @@ class SubFunctionalBasis(tensap.FunctionalBasis):
             self.basis of degrees in self.indices at points x.
 
         """
-        return np.matmul(self.underlying_basis.eval_derivative(x, n), self.basis)
+        return np.matmul(self.underlying_basis.eval_derivative(n, x), self.basis)
 
     def derivative(self, n):
         """
@@ -159,9 +160,7 @@ class SubFunctionalBasis(tensap.FunctionalBasis):
             on itself.
 
         """
-        d_f = deepcopy(self)
-        d_f.underlying_basis = self.underlying_basis.derivative(n)
-        return d_f
+        return SubFunctionalBasis(self.underlying_basis.derivative(n), self.basis)
 
     def eval_jacobian(self, x):
         """
@@ -180,7 +179,7 @@ class SubFunctionalBasis(tensap.FunctionalBasis):
 
         """
         jac = self.underlying_basis.eval_jacobian(x)
-        out = np.einsum("ij,ajk", self.basis, jac)
+        out = np.einsum("aik,ij->ajk", jac, self.basis)
         return out
 
     def mean(self):
diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index 8abc3c4..70de904 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -97,7 +97,7 @@ class FunctionalTensor(tensap.Function):
             self.measure = self.bases.measure
             self.dim = np.sum(self.bases.ndim())
 
-    def __plus__(self, y):
+    def __add__(self, y):
         if isinstance(y, FunctionalTensor) and self.bases == y.bases:
             tensor = self.tensor + y.tensor
         else:
@@ -242,7 +242,7 @@ class FunctionalTensor(tensap.Function):
                     + "order, must specify fdims."
                 )
         if self.bases == f_2.bases:
-            gram_matrix = self.bases.gram_matrix(fdims, *measure)
+            gram_matrix = self.bases.gram_matrices(fdims, *measure)
         else:
             raise NotImplementedError("Method not implemented.")
         tensor = self.tensor.tensor_matrix_product(gram_matrix, fdims)
@@ -269,7 +269,7 @@ class FunctionalTensor(tensap.Function):
 
         """
         if not self.evaluated_bases:
-            gram_matrix = self.bases.gram_matrix(range(self.tensor.order), *measure)
+            gram_matrix = self.bases.gram_matrices(range(self.tensor.order), *measure)
         else:
             gram_matrix = [np.eye(x.shape[1]) for x in self.bases]
         tensor = self.tensor.tensor_matrix_product(
@@ -306,7 +306,7 @@ class FunctionalTensor(tensap.Function):
 
         """
         dims = np.atleast_1d(dims)
-        if np.all([isinstance(x, bool) for x in dims]):
+        if np.all([isinstance(x, (bool, np.bool_)) for x in dims]):
             dims = np.nonzero(dims)[0]
 
         d = self.tensor.order
@@ -358,7 +358,7 @@ class FunctionalTensor(tensap.Function):
         v = np.zeros(alpha.shape[0])
         for i in range(alpha.shape[0]):
             u = alpha[i, :]
-            if np.all([isinstance(x, bool) for x in u]):
+            if np.all([isinstance(x, (bool, np.bool_)) for x in u]):
                 u = np.nonzero(u)[0]
             if u.size == 0:
                 v[i] = 0
@@ -750,12 +750,12 @@ class FunctionalTensor(tensap.Function):
         """
         g = []
         for ind in range(self.bases.length()):
-            n = self.length() * [0]
+            n = self.bases.length() * [0]
             n[ind] = 1
             dHx = self.bases.eval_derivative(n, x)
             y = self.eval_with_bases_evals(dHx)
             g.append(y)
-        out = np.concatenate(g, axis=1)
+        out = np.stack(g, axis=1)
         return out
 
     def derivative(self, n):
@@ -806,7 +806,7 @@ class FunctionalTensor(tensap.Function):
             out = deepcopy(self)
             out.tensor = self.tensor.tensor_matrix_product(H, dims)
             out.bases = out.bases.remove_bases(dims)
-            out.fdims = out.fdims[np.setdiff1d(np.range(np.size(out.fdims)), dims)]
+            out.fdims = out.fdims[np.setdiff1d(np.arange(np.size(out.fdims)), dims)]
             if np.size(out.fdims) == 0:
                 out = out.tensor
         return out
@@ -879,18 +879,29 @@ class FunctionalTensor(tensap.Function):
         if len(dims) == 1 and not isinstance(bases_eval, list):
             bases_eval = [bases_eval]
         if len(dims) == self.tensor.order:
-            out = self.tensor.tensor_matrix_product_eval_diag(bases_eval).numpy()
+            out = self.tensor.tensor_matrix_product_eval_diag(bases_eval)
+            if not isinstance(out, np.ndarray):
+                out = out.numpy()
         else:
             out = deepcopy(self)
-            fdims_eval = out.fdims[dims]
+            fdims_eval = out.fdims[list(dims)]
             out.tensor = out.tensor.tensor_matrix_product_eval_diag(
                 bases_eval, fdims_eval
             )
             fdims_eval.sort()
-            old_dims = np.setdiff1d(range(self.tensor.order), fdims_eval[2:])
-            if out.tensor.shape[fdims_eval[0]] == 1:
-                out.tensor = out.tensor.squeeze(fdims_eval[0])
-                old_dims = np.delete(old_dims, fdims_eval[0])
+            old_dims = np.setdiff1d(range(self.tensor.order), fdims_eval[1:])
+            point_dim = fdims_eval[0]
+            if isinstance(out.tensor, tensap.FullTensor) and isinstance(
+                self.tensor, tensap.FullTensor
+            ):
+                # The evaluations are along the first dimension of the tensor
+                old_dims = np.concatenate(
+                    ([point_dim], old_dims[old_dims != point_dim])
+                )
+                point_dim = 0
+            if out.tensor.shape[point_dim] == 1:
+                out.tensor = out.tensor.squeeze(point_dim)
+                old_dims = np.delete(old_dims, point_dim)
             out.bases = out.bases.remove_bases(dims)
             out.fdims = np.delete(out.fdims, dims)
             out.fdims = np.nonzero(np.isin(old_dims, out.fdims))[0]
diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index b92fe84..4c03ca8 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -1607,9 +1607,9 @@ class TreeBasedTensor:
         else:
             data = self.tensor_matrix_product(matrices, dims)
             dims = np.atleast_1d(dims)
-            if np.all([self.shape[d] == 1 for d in dims]):
+            if np.all([data.shape[d] == 1 for d in dims]):
                 if dims.size > 1:
-                    data = data.squeeze(dims[1:]).full()
+                    data = data.squeeze(np.sort(dims)[1:]).full()
             else:
                 raise NotImplementedError("Method not implemented.")
         return data
-- 
2.43.0


From 22801c9373b1d84fd3bcb51b5ae0f4b36d0274f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:50 +0000
Subject: [PATCH 32/43] fix: mean of piecewise polynomial bases failed, bases
 of dilated B-splines had no ndim()

---
 tensap/approximation/bases/BSplines_functional_basis.py         | 2 +-
 .../bases/piecewise_polynomial_functional_basis.py              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensap/approximation/bases/BSplines_functional_basis.py b/tensap/approximation/bases/BSplines_functional_basis.py
index 8a7df1e..da0cf3b 100644
--- a/tensap/approximation/bases/BSplines_functional_basis.py
+++ b/tensap/approximation/bases/BSplines_functional_basis.py
@@ -376,7 +376,7 @@ class DilatedBSplinesFunctionalBasis(tensap.FunctionalBasis):
     def cardinal(self):
         return self.indices[0].size
 
-    def ndims(self):
+    def ndim(self):
         return 1
 
     def eval_derivative(self, k, x):
diff --git a/tensap/approximation/bases/piecewise_polynomial_functional_basis.py b/tensap/approximation/bases/piecewise_polynomial_functional_basis.py
index 51c855c..188ea21 100644
--- a/tensap/approximation/bases/piecewise_polynomial_functional_basis.py
+++ b/tensap/approximation/bases/piecewise_polynomial_functional_basis.py
@@ -140,7 +140,7 @@ class PiecewisePolynomialFunctionalBasis(tensap.FunctionalBasis):
         p2 = self.points[1:]
         h = p2 - p1
         m = np.zeros(self.cardinal())
-        q = np.cumsum(np.concatenate((0, self.p[:-1] + 1)))
+        q = np.cumsum(np.concatenate(([0], self.p[:-1] + 1)))
         m[q] = np.sqrt(h)
         return m
 
-- 
2.43.0


From 09bd446064147c21158a37546decc9aee798472a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:12 +0000
Subject: [PATCH 33/43] fix: least-squares learning: weighted, vector-valued,
 regularised, Gram-corrected and reused solvers, rank-deficient designs, test
 errors of column outputs

---
 .../linear_model_learning_square_loss.py      | 168 +++++++++++-------
 .../approximation/learning/loss_functions.py  |   7 +-
 2 files changed, 109 insertions(+), 66 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_square_loss.py b/tensap/approximation/learning/linear_model_learning_square_loss.py
index d5c355a..a9ec2ce 100644
--- a/tensap/approximation/learning/linear_model_learning_square_loss.py
+++ b/tensap/approximation/learning/linear_model_learning_square_loss.py
@@ -19,11 +19,28 @@ Module linear_model_learning_square_loss.
 
 """
 
+from copy import copy
+
 import numpy as np
-from scipy.sparse import diags
 import tensap
 
 
+def _is_singular(B):
+    s = np.linalg.svd(B, compute_uv=False)
+    return s.size != 0 and s[-1] <= np.finfo(float).eps * max(B.shape) * s[0]
+
+
+def _solve_system(B, b):
+    # Least-squares solution of minimal norm if B is not numerically invertible
+    if B.shape[0] != B.shape[1] or _is_singular(B):
+        return np.linalg.lstsq(B, b, None)[0]
+    return np.linalg.solve(B, b)
+
+
+def _inverse(B):
+    return np.linalg.pinv(B) if _is_singular(B) else np.linalg.inv(B)
+
+
 class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
     """
     Class LinearModelLearningSquareLoss.
@@ -84,10 +101,29 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
             Outputs of the algorithm.
 
         """
-        self.initialize()
+        # The data are transformed in a local copy of the solver, so that the
+        # solver can be used again with other data or options
+        solver = copy(self)
+        solver.error_estimation_options = dict(self.error_estimation_options)
+        solver.initialize()
+        return solver._solve()
+
+    def _solve(self):
+        """
+        Solution of the problem with the (evaluated) data of the solver, which
+        are modified.
 
+        Returns
+        -------
+        sol : numpy.ndarray or tensap.FunctionalBasisArray
+            The solution of the minimization problem.
+        output : dict
+            Outputs of the algorithm.
+
+        """
         A = self.basis_eval
-        y = self.training_data[1]
+        y = np.asarray(self.training_data[1])
+        weights = self.weights
 
         if self.shared_coefficients:
             if np.ndim(A) == 3:
@@ -97,9 +133,9 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
 
                 A = np.transpose(A, [0, 2, 1])
                 A = np.reshape(A, [-1, A.shape[2]], order="F")
+                if weights is not None:
+                    weights = np.tile(weights, y.size // y.shape[0])
                 y = np.reshape(y, [-1, 1], order="F")
-                self.basis_eval = A
-                self.training_data[1] = y
         if np.ndim(y) == 2:
             n = y.shape[1]
         else:
@@ -107,10 +143,13 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
 
         output = {}
 
-        if self.weights is not None:
-            weights = diags(np.sqrt(self.weights))
-            A = np.matmul(weights, A)
-            y = np.matmul(weights, y)
+        if weights is not None:
+            weights = np.reshape(np.sqrt(weights), [-1, 1])
+            A = weights * A
+            y = np.reshape(weights, [-1] + [1] * (np.ndim(y) - 1)) * y
+
+        self.basis_eval = A
+        self.training_data = [None, y]
 
         if not self.basis_adaptation:
             if not self.regularization:
@@ -123,9 +162,9 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                     output["error"] = np.zeros(n)
                     output["outputs"] = np.empty(n, dtype=object)
                     for ind in range(n):
-                        self.training_data[1] = y[:, ind]
+                        self.training_data = [None, y[:, ind]]
                         sol[:, ind], output_tmp = self._solve_regularized_ls()
-                        output["error"][ind] = output_tmp["error"]
+                        output["error"][ind] = output_tmp.get("error", np.nan)
                         output["outputs"][ind] = output_tmp
         else:
             if n == 1:
@@ -135,24 +174,31 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 output["error"] = np.zeros(n)
                 output["outputs"] = np.empty(n, dtype=object)
                 for ind in range(n):
-                    self.training_data[1] = y[:, ind]
+                    self.training_data = [None, y[:, ind]]
                     sol[:, ind], output_tmp = self._solve_basis_adaptation()
-                    output["error"][ind] = output_tmp["error"]
+                    output["error"][ind] = output_tmp.get("error", np.nan)
                     output["outputs"][ind] = output_tmp
 
         if self.test_error:
-            if n == 1:
+            if np.ndim(self.basis_eval_test) == 3:
+                f_eval = np.einsum(
+                    "ijk,j->ik", self.basis_eval_test, np.reshape(sol, -1)
+                )
+                output["test_error"] = self.loss_function.test_error(
+                    f_eval, self.test_data
+                )
+            elif n == 1:
                 f_eval = np.matmul(self.basis_eval_test, sol)
                 output["test_error"] = self.loss_function.test_error(
                     f_eval, self.test_data
                 )
             else:
-                output["test_error"] = np.zeros([1, n])
+                output["test_error"] = np.zeros(n)
                 f_eval = np.matmul(self.basis_eval_test, sol)
                 for ind in range(n):
                     test_data = [self.test_data[0], self.test_data[1][:, ind]]
                     output["test_error"][ind] = self.loss_function.test_error(
-                        f_eval, test_data
+                        f_eval[:, ind], test_data
                     )
 
         if self.basis is not None:
@@ -179,16 +225,10 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
 
         if self.linear_solver == "solve":
             B = np.matmul(np.transpose(A), A)
-            try:
-                sol = np.linalg.solve(B, np.matmul(np.transpose(A), y))
-            except Exception:
-                sol = np.linalg.lstsq(B, np.matmul(np.transpose(A), y), None)[0]
+            sol = _solve_system(B, np.matmul(np.transpose(A), y))
         elif self.linear_solver == "qr":
             q_A, r_A = np.linalg.qr(A)
-            try:
-                sol = np.linalg.solve(r_A, np.matmul(np.transpose(q_A), y))
-            except Exception:
-                sol = np.linalg.lstsq(r_A, np.matmul(np.transpose(q_A), y), None)[0]
+            sol = _solve_system(r_A, np.matmul(np.transpose(q_A), y))
 
         if self.error_estimation:
             second_moment = np.var(y, 0) + np.mean(y, 0) ** 2
@@ -197,10 +237,7 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 error = np.mean(delta**2, 0) / second_moment
             else:
                 if self.linear_solver == "solve":
-                    try:
-                        B_inv = np.linalg.inv(B)
-                    except Exception:
-                        B_inv = np.linalg.pinv(B)
+                    B_inv = _inverse(B)
                     error, delta = self._compute_cv_error(
                         y, second_moment, A, sol, self.linear_solver, B_inv
                     )
@@ -238,9 +275,10 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
 
         options = self.regularization_options
         if self.regularization_type == "l0":
-            options_loc = {i: output[i] for i in output if i != "alpha"}
+            options_loc = {i: options[i] for i in options if i != "alpha"}
             D = np.linalg.norm(A, axis=0)
-            A_omp = np.matmul(A, diags(1 / D))
+            D[D == 0] = 1
+            A_omp = A / D
             solpath = linear_model.orthogonal_mp(
                 A_omp,
                 y,
@@ -249,8 +287,8 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 return_path=True,
                 **options_loc
             )
-            solpath = np.atleast_2d(solpath)
-            sol = np.matmul(diags(1 / D), solpath[:, -1])
+            solpath = np.reshape(solpath, [P, -1]) / np.reshape(D, [-1, 1])
+            sol = solpath[:, -1] if solpath.shape[1] > 0 else np.zeros(P)
         elif self.regularization_type == "l1":
             reg = linear_model.LassoLars(copy_X=True, fit_intercept=False, **options)
             reg.fit(A, y)
@@ -263,13 +301,16 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
         else:
             raise ValueError("Regularization technique not implemented.")
 
-        if (self.model_selection and np.linalg.norm(
-                solpath) != 0) and solpath.shape[1] > 1:
+        if (
+            self.model_selection
+            and np.linalg.norm(solpath) != 0
+            and solpath.shape[1] > 1
+        ):
             if "non_zero_blocks" in self.options:
-                rep = np.true(solpath.shape[1])
+                rep = np.full(solpath.shape[1], True)
                 rep = np.logical_and(rep, np.any(solpath, 0))
                 for block in self.options["non_zero_blocks"]:
-                    rep = np.logical_and(rep, np.any(solpath[block, :], 0))
+                    rep = np.logical_and(rep, np.any(solpath[np.ravel(block), :], 0))
                 solpath = solpath[:, rep]
 
             sol, output = self._select_optimal_path(solpath)
@@ -283,21 +324,22 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 delta = y - np.matmul(A, sol)
                 error = np.mean(delta ** 2, 0) / second_moment
             else:
-                # if len(sol) > 1:
-                if np.all(sol != 0):
+                options_ini = self.error_estimation_options
+                if np.any(sol != 0):
                     ind = np.nonzero(sol)[0]
                     A_red = A[:, ind]
                     sol_ind = sol[ind]
+                    if "gram_matrix" in options_ini:
+                        self.error_estimation_options = dict(
+                            options_ini,
+                            gram_matrix=options_ini["gram_matrix"][np.ix_(ind, ind)],
+                        )
                 else:
-                    # ind = 0
                     A_red = A
                     sol_ind = sol
                 if self.linear_solver == "solve":
                     B = np.matmul(np.transpose(A_red), A_red)
-                    try:
-                        B_inv = np.linalg.inv(B)
-                    except Exception:
-                        B_inv = np.linalg.pinv(B)
+                    B_inv = _inverse(B)
                     error, delta = self._compute_cv_error(
                         y, second_moment, A_red, sol_ind, self.linear_solver, B_inv
                     )
@@ -306,6 +348,7 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                     error, delta = self._compute_cv_error(
                         y, second_moment, A_red, sol_ind, self.linear_solver, q_A, r_A
                     )
+                self.error_estimation_options = options_ini
             output["error"] = error
             output["delta"] = delta
 
@@ -408,7 +451,9 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
 
             A_red = A[:, ind]
             if "gram_matrix" in self.error_estimation_options:
-                self.error_estimation_options["gram_matrix"] = gram_matrix[ind, ind]
+                self.error_estimation_options["gram_matrix"] = gram_matrix[
+                    np.ix_(ind, ind)
+                ]
 
             if A_red.shape[1] > A_red.shape[0]:
                 self.linear_solver = "solve"
@@ -417,21 +462,13 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
 
             if self.linear_solver == "qr":
                 q_A, r_A = np.linalg.qr(A_red)
-                try:
-                    sol_red = np.linalg.solve(r_A, np.matmul(np.transpose(q_A), y))
-                except Exception:
-                    sol_red = np.linalg.lstsq(
-                        r_A, np.matmul(np.transpose(q_A), y), None
-                    )[0]
+                sol_red = _solve_system(r_A, np.matmul(np.transpose(q_A), y))
 
                 err[i], delta[:, i] = self._compute_cv_error(
                     y, second_moment, A_red, sol_red, "qr", q_A, r_A
                 )
             elif self.linear_solver == "solve":
-                try:
-                    C_red = np.linalg.inv(np.matmul(np.transpose(A_red), A_red))
-                except Exception:
-                    C_red = np.linalg.pinv(np.matmul(np.transpose(A_red), A_red))
+                C_red = _inverse(np.matmul(np.transpose(A_red), A_red))
 
                 sol_red = np.matmul(C_red, np.matmul(np.transpose(A_red), y))
                 err[i], delta[:, i] = self._compute_cv_error(
@@ -448,6 +485,11 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 print("stop_if_error_increase")
                 err[i + 1:] = np.inf
                 delta[:, i + 1:] = np.inf
+                break
+
+        self.linear_solver = linear_solver
+        if "gram_matrix" in self.error_estimation_options:
+            self.error_estimation_options["gram_matrix"] = gram_matrix
 
         ind = np.argmin(err)
 
@@ -535,10 +577,7 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
 
         if not args and linear_solver is None:
             if P > N:
-                try:
-                    C = np.linalg.inv(np.matmul(np.transpose(A), A))
-                except Exception:
-                    C = np.linalg.pinv(np.matmul(np.transpose(A), A))
+                C = _inverse(np.matmul(np.transpose(A), A))
                 linear_solver = "solve"
             else:
                 q_A, r_A = np.linalg.qr(A)
@@ -570,7 +609,9 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 T = np.sum(q_A**2, 1)
 
             with np.errstate(divide="ignore", invalid="ignore"):
-                delta = (y - np.matmul(A, sol)) / (1 - np.reshape(T, y.shape))
+                delta = (y - np.matmul(A, sol)) / (
+                    1 - np.reshape(T, [-1] + [1] * (np.ndim(y) - 1))
+                )
             delta = np.squeeze(delta)
             # Compute the absolute cross-validation error
             err = np.mean(delta**2, 0)
@@ -611,14 +652,14 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
                 )
                 # Compute the absolute cross-validation error for the current
                 # fold
-                errors.append(np.mean(delta_loc**2))
+                errors.append(np.mean(delta_loc**2, 0))
                 if n == 1:
                     delta[test] = delta_loc
                 else:
                     delta[test, :] = delta_loc
 
             # Average over the folds
-            err = np.mean(errors)
+            err = np.mean(errors, 0)
             delta = np.squeeze(delta)
         else:
             raise NotImplementedError(
@@ -637,10 +678,7 @@ class LinearModelLearningSquareLoss(tensap.LinearModelLearning):
         elif self.error_estimation_options["correction"]:
             if N != P:
                 if linear_solver == "qr":
-                    try:
-                        inv_rA = np.linalg.inv(r_A)
-                    except Exception:
-                        inv_rA = np.linalg.pinv(r_A)
+                    inv_rA = _inverse(r_A)
                     C = np.matmul(inv_rA, np.transpose(inv_rA))
 
                 if "gram_matrix" in self.error_estimation_options:
diff --git a/tensap/approximation/learning/loss_functions.py b/tensap/approximation/learning/loss_functions.py
index d1f1105..9fc3374 100644
--- a/tensap/approximation/learning/loss_functions.py
+++ b/tensap/approximation/learning/loss_functions.py
@@ -163,8 +163,13 @@ class SquareLossFunction(LossFunction):
             except Exception:
                 y_pred = fun
 
+        # One row per point of the sample
+        y_true = np.asarray(sample[1])
+        y_true = np.reshape(y_true, [-1, 1] if y_true.ndim < 2 else y_true.shape)
+        y_pred = np.asarray(y_pred)
+        if y_pred.size == y_true.size:
+            y_pred = np.reshape(y_pred, y_true.shape)
         y_pred = np.atleast_2d(y_pred)
-        y_true = np.atleast_2d(sample[1])
         loss = np.sum((y_pred - y_true) ** 2, 1)
 
         if nargout == 1:
-- 
2.43.0


From 4b7130a774a470c0c6cc83712ed2bd6621237935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:12 +0000
Subject: [PATCH 34/43] fix: density learning: reuse, test error, early
 stopping with negative risks, included coefficients with a known part

---
 .../linear_model_learning_density_l2.py       | 35 +++++++++++++++----
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/tensap/approximation/learning/linear_model_learning_density_l2.py b/tensap/approximation/learning/linear_model_learning_density_l2.py
index 68a2af4..42f9c59 100644
--- a/tensap/approximation/learning/linear_model_learning_density_l2.py
+++ b/tensap/approximation/learning/linear_model_learning_density_l2.py
@@ -19,6 +19,8 @@ Module linear_model_learning_density_l2.
 
 """
 
+from copy import copy
+
 import numpy as np
 import tensap
 
@@ -45,7 +47,7 @@ class LinearModelLearningDensityL2(tensap.LinearModelLearning):
         None.
 
         """
-        super().__init__(tensap.SquareLossFunction())
+        super().__init__(tensap.DensityL2LossFunction())
 
         self.is_basis_orthonormal = True
 
@@ -62,8 +64,24 @@ class LinearModelLearningDensityL2(tensap.LinearModelLearning):
             Outputs of the algorithm.
 
         """
-        self.initialize()
+        # The bases are evaluated in a local copy of the solver, so that the
+        # solver can be used again with other data
+        solver = copy(self)
+        solver.initialize()
+        return solver._solve()
+
+    def _solve(self):
+        """
+        Solution of the problem with the evaluated bases of the solver.
 
+        Returns
+        -------
+        sol : numpy.ndarray  or tensap.FunctionalBasisArray
+            The solution of the minimization problem.
+        output : dict
+            Outputs of the algorithm.
+
+        """
         if self.basis_adaptation:
             sol, output = self._solve_basis_adaptation()
         elif self.regularization:
@@ -72,9 +90,11 @@ class LinearModelLearningDensityL2(tensap.LinearModelLearning):
             sol, output = self._solve_standard()
 
         if self.test_error:
-            f_eval = np.matmul(self.basis_eval_test, sol)
+            A_test = self.basis_eval_test
+            if np.ndim(A_test) == 3:
+                A_test = np.squeeze(A_test, axis=2)
             output["test_error"] = self.loss_function.test_error(
-                f_eval, self.test_data, sol.norm() ** 2
+                np.matmul(A_test, sol), self.test_data, np.linalg.norm(sol)
             )
 
         if self.basis is not None:
@@ -188,11 +208,11 @@ class LinearModelLearningDensityL2(tensap.LinearModelLearning):
                     / (N * (N - 1) ** 2)
                     * np.sum(np.ravel(A_square_sum)[incl_coef])
                     - 2 / (N - 1) * np.sum(np.matmul(A, sol_incl_coef))
-                    + 2 * np.sum(sol_incl_coef * b_incl_coef)
+                    + 2 * np.sum(sol_incl_coef * b)
                 )
 
         if list_sort.size == 0:
-            return sol_standard, {"error": np.nan}
+            return sol_standard, {"error": err_incl_coef}
 
         n = list_sort.size
         sol = np.zeros((sol_standard.shape[0], n))
@@ -353,10 +373,11 @@ class LinearModelLearningDensityL2(tensap.LinearModelLearning):
             if (
                 i > 1
                 and self.model_selection_options["stop_if_error_increase"]
-                and err[i] > 2 * err[i - 1]
+                and err[i] > err[i - 1] + np.abs(err[i - 1])
             ):
                 print("stop_if_error_increase")
                 err[i + 1:] = np.inf
+                break
 
         ind = np.argmin(err)
 
-- 
2.43.0


From be5dcc7827818f7593b24889dacfe25fbf5cccb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:09 +0000
Subject: [PATCH 35/43] fix: adaptive learning: an infinite error at the first
 pass left no function (crash); NaN scores were selected as the smallest;
 after a change of tree the stored iterate was the one before the change
 although its test error was recomputed

---
 .../tensor_learning/tensor_learning.py        | 28 ++++++++++++++-----
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
index bd6fbb0..beac4c0 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
@@ -325,7 +325,8 @@ class TensorLearning(tensap.Learning):
 
         if self.model_selection:
             if self.model_selection_options["type"] == "test_error":
-                ind = np.argmin(output["test_error_iterations"])
+                errors = np.array(output["test_error_iterations"], dtype=float)
+                ind = np.argmin(np.where(np.isnan(errors), np.inf, errors))
                 fun = output["iterates"][ind]
                 output["selected_model_number"] = ind
                 if (
@@ -340,7 +341,8 @@ class TensorLearning(tensap.Learning):
                         + "#%i selected" % ind
                     )
             elif self.model_selection_options["type"] == "cv_error":
-                ind = np.argmin(output["error_iterations"])
+                errors = np.array(output["error_iterations"], dtype=float)
+                ind = np.argmin(np.where(np.isnan(errors), np.inf, errors))
                 fun = output["iterates"][ind]
                 output["selected_model_number"] = ind
                 if (
@@ -589,11 +591,13 @@ class TensorLearning(tensap.Learning):
             if "error" in output_local:
                 errors[iteration] = output_local["error"]
                 if np.isinf(errors[iteration]):
-                    print("Infinite error, returning to the previous iterate.")
-                    f = f_old
-                    iteration -= 1
                     flag = -2
-                    break
+                    if iteration > 0:
+                        print("Infinite error, returning to the previous iterate.")
+                        f = f_old
+                        iteration -= 1
+                        break
+                    print("Infinite error at the first iteration.")
 
             if self.test_error:
                 f_eval_test = tensap.FunctionalTensor(f, self.bases_eval_test)
@@ -621,7 +625,10 @@ class TensorLearning(tensap.Learning):
                 if self.alternating_minimization_parameters["display"]:
                     print("")
 
-            if iteration == self.rank_adaptation_options["max_iterations"] - 1:
+            if (
+                flag == -2
+                or iteration == self.rank_adaptation_options["max_iterations"] - 1
+            ):
                 break
 
             if (
@@ -684,6 +691,13 @@ class TensorLearning(tensap.Learning):
                             "\t\tStorage complexity after permutation "
                             + "= %i" % f.tensor.storage()
                         )
+                    if self.store_iterates:
+                        if isinstance(self.bases, tensap.FunctionalBases):
+                            iterates[iteration] = tensap.FunctionalTensor(
+                                f.tensor, self.bases
+                            )
+                        else:
+                            iterates[iteration] = f
                     if self.test_error:
                         f_eval_test = tensap.FunctionalTensor(f, self.bases_eval_test)
                         test_errors[iteration] = self.loss_function.test_error(
-- 
2.43.0


From 9fc4f7090466571247ae4c106c80ebedc4a53fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:08 +0000
Subject: [PATCH 36/43] fix: alternating minimisation: a failed subproblem went
 on with the partially updated function and left the records one short;
 iterates and the initial guess shared data with the running function; basis
 evaluations of the first training data were reused after the data changed;
 random exploration and mean initialisation of trees failed; the greedy
 canonical algorithm modified the data, returned malformed histories and
 failed for several settings; DMRG did not adapt trees without error
 estimates, returned a function other than its last iterate after tree
 adaptation, and failed when only the root is active

---
 .../canonical_tensor_learning.py              | 84 +++++++++++------
 .../tensor_learning/tensor_learning.py        | 39 ++++++--
 .../tree_based_tensor_learning.py             | 89 ++++++++++++++-----
 3 files changed, 151 insertions(+), 61 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
index da8472a..1ec5197 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py
@@ -118,7 +118,8 @@ class CanonicalTensorLearning(tensap.TensorLearning):
             s_ini.algorithm = "greedy"
             s_ini.initialization_type = "mean"
             s_ini.alternating_minimization_parameters["display"] = False
-            s_ini.linear_model_learning.error_estimation = False
+            for x in np.atleast_1d(s_ini.linear_model_learning):
+                x.error_estimation = False
             s_ini.test_error = False
             s_ini.display = False
             f, output_ini = s_ini.solve()
@@ -143,11 +144,12 @@ class CanonicalTensorLearning(tensap.TensorLearning):
             s_ini.initialization_type = "greedy"
             s_ini.rank = self.rank - len(f.core.data)
             s_ini.alternating_minimization_parameters["display"] = False
-            s_ini.linear_model_learning.error_estimation = False
+            for x in np.atleast_1d(s_ini.linear_model_learning):
+                x.error_estimation = False
             s_ini.test_error = False
             s_ini.display = False
             if isinstance(s_ini.training_data, list) and len(s_ini.training_data) == 2:
-                s_ini.training_data[1] -= fx
+                s_ini.training_data[1] = s_ini.training_data[1] - fx
             elif isinstance(s_ini.loss_function, tensap.DensityL2LossFunction):
                 s_ini.training_data = [s_ini.training_data, fx]
 
@@ -278,8 +280,16 @@ class CanonicalTensorLearning(tensap.TensorLearning):
                 f.tensor.space[mu - 1] = coef
                 f.tensor.core.data = np.ravel(norm_coef)
 
-                if len(f.tensor.space) == 2 and mu == 1:
-                    f.tensor.space[0] = np.linalg.qr(f.tensor.space[0])[0]
+                if (
+                    len(f.tensor.space) == 2
+                    and mu == 1
+                    and np.all(ind)
+                    and coef.shape[0] >= coef.shape[1]
+                ):
+                    space, mat = np.linalg.qr(coef * norm_coef)
+                    f.tensor.space[0] = space
+                    f.tensor.space[1] = np.matmul(f.tensor.space[1], mat.T)
+                    f.tensor.core.data = np.ones(space.shape[1])
             else:
                 ind = mu
                 mu = int(
@@ -352,8 +362,10 @@ class CanonicalTensorLearning(tensap.TensorLearning):
         ), "Method not implemented for this loss function."
 
         bases_eval = self.bases_eval
-        output = {}
+        output = {"flag": 0}
         output["sequence"] = np.empty(self.rank, dtype=object)
+        output["test_error_iterations"] = []
+        self._number_of_parameters = self.order + 1
 
         # Replication of the LinearModelLearning objects
         if self.linear_model_learning_parameters[
@@ -390,14 +402,17 @@ class CanonicalTensorLearning(tensap.TensorLearning):
 
         f = tensap.CanonicalTensor.zeros(0, [x.shape[1] for x in bases_eval])
         f_0 = deepcopy(f)
-        stagnation = np.zeros((1, self.rank))
+        stagnation = np.zeros(self.rank)
 
         ls_local = deepcopy(
             s_local.linear_model_learning[self._number_of_parameters - 1]
         )
 
+        if self.error_estimation:
+            ls_local.error_estimation = True
+
         is_error = False
-        error = np.ones((1, self.rank))
+        error = np.ones(self.rank)
         pure_greedy = False
         if not pure_greedy:
             for linear_solver in self.linear_model_learning:
@@ -435,18 +450,26 @@ class CanonicalTensorLearning(tensap.TensorLearning):
                 if self.alternating_minimization_parameters["display"]:
                     print(
                         "Alternating minimization (greedy): rank = %i, "
-                        + "error = %2.5e, stagnation = %2.5e",
-                        current_rank,
-                        error[k - 1],
-                        stagnation[k - 1],
+                        "error = %2.5e, stagnation = %2.5e"
+                        % (current_rank, error[k - 1], stagnation[k - 1])
                     )
             else:
                 if self.alternating_minimization_parameters["display"]:
                     print(
                         "Alternating minimization (greedy): rank = %i, "
-                        + "stagnation = %2.5e",
-                        current_rank,
-                        stagnation[k - 1],
+                        "stagnation = %2.5e" % (current_rank, stagnation[k - 1])
+                    )
+
+            if self.test_error:
+                f_eval_test = tensap.FunctionalTensor(f, self.bases_eval_test)
+                output["test_error"] = self.loss_function.test_error(
+                    f_eval_test, self.test_data
+                )
+                output["test_error_iterations"].append(output["test_error"])
+                if self.display:
+                    print(
+                        "Greedy: iteration %i, test error = %2.5e"
+                        % (k, output["test_error"])
                     )
 
             if (
@@ -461,26 +484,29 @@ class CanonicalTensorLearning(tensap.TensorLearning):
                 break
 
             f_0 = deepcopy(f)
-            if self.test_error:
-                f_eval_test = tensap.FunctionalTensor(f, self.bases_eval_test)
-                output["test_error"] = self.loss_function.test_error(
-                    f_eval_test, self.test_data
-                )
-                output["test_error_iterations"].append(output["test_error"])
-                if self.display:
-                    print(
-                        "Greedy: iteration %i, test error = %2.5e",
-                        k,
-                        output["test_error"],
-                    )
 
-        output["stagnation"] = stagnation[: k - 1]
+        output["stagnation"] = stagnation[:k]
         if is_error:
-            output["errors"] = error[: k - 1]
+            output["errors"] = error[:k]
             K = np.argmin(output["errors"])
             f = output["sequence"][K]
             output["selected_iterate"] = K
             output["error"] = output["errors"][K]
+            output["error_iterations"] = output["errors"]
+            if self.test_error:
+                output["test_error"] = output["test_error_iterations"][K]
+
+        output["iterates"] = [
+            tensap.FunctionalTensor(
+                x,
+                (
+                    self.bases
+                    if isinstance(self.bases, tensap.FunctionalBases)
+                    else bases_eval
+                ),
+            )
+            for x in output["sequence"][:k]
+        ]
 
         if isinstance(self.bases, tensap.FunctionalBases):
             f = tensap.FunctionalTensor(f, self.bases)
diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
index beac4c0..1b6e495 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py
@@ -251,7 +251,10 @@ class TensorLearning(tensap.Learning):
                 print("Cannot perform basis adaptation, disabling it.")
                 self.linear_model_learning.basis_adaptation = False
 
-        # Bases evaluation
+        # Bases evaluation (not kept after the resolution when it is computed
+        # here, as the data may then be modified)
+        reset_bases_eval = self.bases_eval is None
+        reset_bases_eval_test = self.bases_eval_test is None
         if hasattr(self.bases, "eval"):
             if self.training_data is not None and self.bases_eval is None:
                 if (
@@ -323,6 +326,11 @@ class TensorLearning(tensap.Learning):
         else:
             fun, output = eval("self._solve_" + self.algorithm.lower() + "()")
 
+        if reset_bases_eval:
+            self.bases_eval = None
+        if reset_bases_eval_test:
+            self.bases_eval_test = None
+
         if self.model_selection:
             if self.model_selection_options["type"] == "test_error":
                 errors = np.array(output["test_error_iterations"], dtype=float)
@@ -392,8 +400,14 @@ class TensorLearning(tensap.Learning):
         """
         output = {"flag": 0}
 
+        # Solvers of inactive nodes left by a previous resolution
+        if isinstance(self.linear_model_learning, (list, np.ndarray)):
+            self.linear_model_learning = [
+                x for x in self.linear_model_learning if x is not None
+            ]
+
         self, f = self.initialize()
-        f = tensap.FunctionalTensor(f, self.bases_eval)
+        f = tensap.FunctionalTensor(deepcopy(f), self.bases_eval)
 
         # Replication of the LinearModelLearning objects
         if self.linear_model_learning_parameters[
@@ -437,6 +451,7 @@ class TensorLearning(tensap.Learning):
         ):
             self, f = self.pre_processing(f)
             f0 = deepcopy(f)
+            failed = False
 
             if self.alternating_minimization_parameters["random"]:
                 # Randomize the exploration strategy
@@ -460,8 +475,8 @@ class TensorLearning(tensap.Learning):
                         "Empty, zero or NaN solution, returning to the "
                         + "previous iteration."
                     )
-                    output["flag"] = -2
-                    output["error"] = np.inf
+                    failed = True
+                    f = f0
                     break
 
                 f = self.set_parameter(f, alpha, coef)
@@ -472,12 +487,17 @@ class TensorLearning(tensap.Learning):
             if self.store_iterates:
                 if isinstance(self.bases, tensap.FunctionalBases):
                     output["iterates"].append(
-                        tensap.FunctionalTensor(f.tensor, self.bases)
+                        tensap.FunctionalTensor(deepcopy(f.tensor), self.bases)
                     )
                 else:
-                    output["iterates"].append(f)
-
-            if "error" in output_tmp:
+                    output["iterates"].append(deepcopy(f))
+
+            if failed:
+                output["flag"] = -2
+                output["error"] = np.inf
+                if "error" in output_tmp or len(output["error_iterations"]) > 0:
+                    output["error_iterations"].append(output["error"])
+            elif "error" in output_tmp:
                 output["error"] = output_tmp["error"]
                 output["error_iterations"].append(output["error"])
 
@@ -514,6 +534,9 @@ class TensorLearning(tensap.Learning):
                     print(", test error = %2.5e" % output["test_error"], end="")
                 print("")
 
+            if failed:
+                break
+
             if (
                 iteration > 0
                 and stagnation < self.alternating_minimization_parameters["stagnation"]
diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index 5e99484..9704325 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -103,7 +103,9 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
             self.initialization_type == "mean"
             or self.initialization_type == "mean_randomized"
         ):
-            if not np.all(self.rank == 1):
+            rank = np.array(self.rank)
+            rank[self.tree.root - 1] = 1
+            if not np.all(rank[self.is_active_node] == 1):
                 raise NotImplementedError(
                     "Initialization only implemented " + "if np.all(self.rank == 1)."
                 )
@@ -118,12 +120,14 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
             if isinstance(self.bases, tensap.FunctionalBases):
                 means = self.bases.mean()
             else:
-                means = [np.mean(x) for x in self.bases_eval]
+                means = [np.mean(x, 0) for x in self.bases_eval]
             if self.initialization_type == "mean_randomized":
                 means = [x + 0.01 * np.random.randn(*x.shape) for x in means]
             means = [tensap.FullTensor(x, 2, [x.shape[0], 1]) for x in means]
 
-            f = tensap.TreeBasedTensor.ones(self.tree, self.rank, shape)
+            rank = np.ones(self.tree.nb_nodes, dtype=int)
+            rank[self.tree.root - 1] = self.output_dimension
+            f = tensap.TreeBasedTensor.ones(self.tree, rank, shape)
             f.tensors[self.tree.dim2ind - 1] = means
             nb_child = len(self.tree.children(self.tree.root))
             if np.ndim(self.training_data[1]) == 2:
@@ -133,7 +137,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
             else:
                 shape = np.full(nb_child, 1)
             f.tensors[self.tree.root - 1] = tensap.FullTensor(
-                np.mean(self.training_data[1]), shape=shape
+                np.mean(self.training_data[1], 0), shape=shape
             )
             f.update_attributes()
 
@@ -186,12 +190,13 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
         return self, f
 
     def randomize_exploration_strategy(self):
-        strategy = np.zeros(self._number_of_parameters)
+        strategy = np.zeros(self._exploration_strategy.size, dtype=int)
         for level in np.arange(np.max(self.tree.level), -1, -1):
             active_nodes = np.intersect1d(
-                self.tree.nodes_with_level(level), np.nonzero(self.is_active_node)[0]
+                self.tree.nodes_with_level(level),
+                np.nonzero(self.is_active_node)[0] + 1,
             )
-            _, ind = np.intersect1d(
+            _, ind, _ = np.intersect1d(
                 self._exploration_strategy, active_nodes, return_indices=True
             )
             strategy[ind] = self._exploration_strategy[np.random.permutation(ind)]
@@ -350,7 +355,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
 
         solver = deepcopy(self)
         if isinstance(solver.training_data, list) and len(solver.training_data) == 2:
-            solver.training_data[1] -= fx
+            solver.training_data[1] = solver.training_data[1] - fx
         elif isinstance(solver.loss_function, tensap.DensityL2LossFunction):
             solver.training_data = [solver.training_data, f]
 
@@ -393,7 +398,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
         solver = deepcopy(self)
         solver.model_selection = False
         if isinstance(solver.training_data, list) and len(solver.training_data) == 2:
-            solver.training_data[1] -= fx
+            solver.training_data[1] = solver.training_data[1] - fx
         elif isinstance(solver.loss_function, tensap.DensityL2LossFunction):
             solver.training_data = [solver.training_data, f]
         solver.rank_adaptation = False
@@ -667,10 +672,20 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
         if self.display:
             self.alternating_minimization_parameters["display"] = True
 
+        if np.count_nonzero(self.is_active_node) == 1:
+            # Only the root is active: there is no edge to optimize
+            return self._solve_standard()
+
         output = {"flag": 0}
 
+        # Solvers of inactive nodes left by a previous resolution
+        if isinstance(self.linear_model_learning, (list, np.ndarray)):
+            self.linear_model_learning = [
+                x for x in self.linear_model_learning if x is not None
+            ]
+
         self, f = self.initialize()
-        f = tensap.FunctionalTensor(f, self.bases_eval)
+        f = tensap.FunctionalTensor(deepcopy(f), self.bases_eval)
 
         # Exploration strategy of the tree by decreasing level
         tree = f.tensor.tree
@@ -727,6 +742,7 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
         ):
             self, f = self.pre_processing(f)
             f0 = deepcopy(f)
+            failed = False
 
             if self.alternating_minimization_parameters["random"]:
                 # Randomize the exploration strategy
@@ -835,8 +851,8 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
                             "Empty, zero or NaN solution, returning to "
                             + "the previous iteration."
                         )
-                        output["flag"] = -2
-                        output["error"] = np.inf
+                        failed = True
+                        f = f0
                         break
 
                     sz_1 = np.prod(f.tensor.tensors[alpha - 1].shape[:-1])
@@ -943,8 +959,8 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
                             "Empty, zero or NaN solution, returning to "
                             + "the previous iteration."
                         )
-                        output["flag"] = -2
-                        output["error"] = np.inf
+                        failed = True
+                        f = f0
                         break
                 else:
                     raise ValueError("Wrong rank adaptation type.")
@@ -955,7 +971,10 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
                     a_gamma, np.size(sz_2), sz_2
                 )
 
-            if self.rank_adaptation_options["post_alternating_minimization"]:
+            if (
+                self.rank_adaptation_options["post_alternating_minimization"]
+                and not failed
+            ):
                 print("\t\tPost alternating minimization.")
                 s_local = TreeBasedTensorLearning(
                     self.tree, self.is_active_node, self.loss_function
@@ -995,12 +1014,17 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
             if self.store_iterates:
                 if isinstance(self.bases, tensap.FunctionalBases):
                     output["iterates"].append(
-                        tensap.FunctionalTensor(f.tensor, self.bases)
+                        tensap.FunctionalTensor(deepcopy(f.tensor), self.bases)
                     )
                 else:
-                    output["iterates"].append(f)
-
-            if "error" in output_tmp:
+                    output["iterates"].append(deepcopy(f))
+
+            if failed:
+                output["flag"] = -2
+                output["error"] = np.inf
+                if "error" in output_tmp or len(output["error_iterations"]) > 0:
+                    output["error_iterations"].append(output["error"])
+            elif "error" in output_tmp:
                 output["error"] = output_tmp["error"]
                 output["error_iterations"].append(output["error"])
 
@@ -1038,6 +1062,9 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
                     print(", test error = %2.5e" % output["test_error"], end="")
                 print("")
 
+            if failed:
+                break
+
             if (
                 iteration > 0
                 and stagnation < self.alternating_minimization_parameters["stagnation"]
@@ -1052,7 +1079,11 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
             if self.tree_adaptation and iteration > 0:
                 C_old = f.tensor.storage()
                 self, f, output = self.adapt_tree(
-                    f, output["error"], None, output, iteration
+                    f,
+                    output.get("error"),
+                    None if "error" in output else output.get("test_error"),
+                    output,
+                    iteration,
                 )
                 adapted_tree = output["adapted_tree"]
                 if adapted_tree:
@@ -1065,15 +1096,25 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
                             "\t\tStorage complexity after permutation "
                             + "= %i" % f.tensor.storage()
                         )
+                    if self.store_iterates:
+                        output["iterates"][-1] = tensap.FunctionalTensor(
+                            deepcopy(f.tensor),
+                            (
+                                self.bases
+                                if isinstance(self.bases, tensap.FunctionalBases)
+                                else f.bases
+                            ),
+                        )
                     if self.test_error:
                         f_eval_test = tensap.FunctionalTensor(f, self.bases_eval_test)
+                        output["test_error"] = self.loss_function.test_error(
+                            f_eval_test, self.test_data
+                        )
+                        output["test_error_iterations"][-1] = output["test_error"]
                         if self.display:
                             print(
                                 "\t\tTest error after permutation "
-                                + "= %2.5e"
-                                % self.loss_function.test_error(
-                                    f_eval_test, self.test_data
-                                )
+                                + "= %2.5e" % output["test_error"]
                             )
 
                     if self.alternating_minimization_parameters["display"]:
-- 
2.43.0


From 05d005e3bb17fb27546f28a62f03c5ea0b2d964c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:43 +0000
Subject: [PATCH 37/43] fix: a tolerance given as a list of one value was
 rejected by the tree-based approximation, and a maximal rank given together
 with a tolerance was ignored

---
 .../tensor_principal_component_analysis.py    | 31 ++++++++++++++-----
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py b/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py
index 8393e4f..e50e869 100644
--- a/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py
+++ b/tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py
@@ -75,7 +75,9 @@ class TensorPrincipalComponentAnalysis:
         self.subsampling = "eim"
         self.subsampling_tol = 1.05
 
-    def alpha_principal_components(self, fun, shape, alpha, tol, B_alpha, I_alpha):
+    def alpha_principal_components(
+        self, fun, shape, alpha, tol, B_alpha, I_alpha, max_rank=np.inf
+    ):
         """
         Evaluate the alpha-principal components of a tensor f.
 
@@ -111,6 +113,9 @@ class TensorPrincipalComponentAnalysis:
             evaluation of phi_i at the set of indices i_alpha in Ialpha.
         I_alpha : numpy.ndarray
             Array of shape (N_alpha, #alpha) containing N_alpha tuples i_alpha.
+        max_rank : int, optional
+            A bound on the number of principal components when tol < 1. The
+            default is np.inf.
 
         Returns
         -------
@@ -169,6 +174,11 @@ class TensorPrincipalComponentAnalysis:
             pc, sin_val = A.principal_components(tol)
             output["number_of_evaluations"] = I_alpha.shape[0] * N
 
+        if max_rank < pc.shape[1]:
+            max_rank = max(int(max_rank), 1)
+            pc = pc[:, :max_rank]
+            sin_val = sin_val[:max_rank, :max_rank]
+
         output["singular_values"] = sin_val
         output["samples"] = product_grid
         return pc, output
@@ -231,7 +241,7 @@ class TensorPrincipalComponentAnalysis:
             B_alpha = np.eye(shape[alpha])
             tol_alpha = np.min((solver.tol[alpha], solver.max_rank[alpha]))
             f_pc_alpha, output_alpha = solver.alpha_principal_components(
-                fun, shape, alpha, tol_alpha, B_alpha, I_alpha
+                fun, shape, alpha, tol_alpha, B_alpha, I_alpha, solver.max_rank[alpha]
             )
             f_pc.append(f_pc_alpha)
             output.append(output_alpha)
@@ -401,11 +411,11 @@ class TensorPrincipalComponentAnalysis:
         if is_active_node is None:
             is_active_node = np.full(tree.nb_nodes, True)
 
-        if (np.ndim(self.tol) == 0 or len(self.tol) == 1) and self.tol < 1:
-            solver.tol /= np.sqrt(np.count_nonzero(is_active_node) - 1)
-
         if np.ndim(self.tol) == 0 or len(self.tol) == 1:
-            solver.tol = np.full(tree.nb_nodes, solver.tol)
+            tol = np.ravel(self.tol)[0]
+            if tol < 1:
+                tol = tol / np.sqrt(max(np.count_nonzero(is_active_node) - 1, 1))
+            solver.tol = np.full(tree.nb_nodes, tol)
         elif len(self.tol) != tree.nb_nodes:
             raise ValueError(
                 "tol should be a scalar or an array of length " + "tree.nb_nodes."
@@ -431,7 +441,13 @@ class TensorPrincipalComponentAnalysis:
             if is_active_node[alpha - 1]:
                 tol_alpha = np.min((solver.tol[alpha - 1], solver.max_rank[alpha - 1]))
                 pc_alpha, outputs[alpha - 1] = solver.alpha_principal_components(
-                    fun, shape, nu, tol_alpha, B_alpha, grids[nu]
+                    fun,
+                    shape,
+                    nu,
+                    tol_alpha,
+                    B_alpha,
+                    grids[nu],
+                    solver.max_rank[alpha - 1],
                 )
                 samples[alpha - 1] = outputs[alpha - 1]["samples"]
                 shape_alpha = [shape[nu], pc_alpha.shape[1]]
@@ -487,6 +503,7 @@ class TensorPrincipalComponentAnalysis:
                     tol_alpha,
                     B_alpha,
                     alpha_grids[alpha - 1],
+                    solver.max_rank[alpha - 1],
                 )
                 samples[alpha - 1] = outputs[alpha - 1]["samples"]
                 shape_alpha = np.concatenate(
-- 
2.43.0


From e831c85e8ab734a0c8babfc9404ef4f68657dff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:37 +0000
Subject: [PATCH 38/43] fix: products of vector-valued functional tree tensors
 (root rank n > 1) paired component i of the first function with component 0
 of the second for i > 0

---
 tensap/functions/functional_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/functional_tensor.py b/tensap/functions/functional_tensor.py
index 70de904..c1e41d4 100644
--- a/tensap/functions/functional_tensor.py
+++ b/tensap/functions/functional_tensor.py
@@ -415,7 +415,7 @@ class FunctionalTensor(tensap.Function):
                     c = out.tensor.tensors[root - 1]
                     n = self.tensor.ranks[root - 1]
                     s = [":"] * c.order
-                    s[-1] = np.arange(n**2, step=n)
+                    s[-1] = np.arange(n**2, step=n + 1)
                     c = c.sub_tensor(*s)
                     out.tensor.tensors[root - 1] = c
                     out.tensor.ranks[root - 1] = n
-- 
2.43.0


From 7eb65421290579b923e393096bace30c79af332b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:30 +0000
Subject: [PATCH 39/43] fix: rank enrichment kept as candidates the nodes with
 the largest rank their inactive leaves allow, so that the enrichment was not
 admissible and the adaptation stalled

---
 .../tensor_learning/tree_based_tensor_learning.py          | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
index 9704325..c434f22 100644
--- a/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
+++ b/tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py
@@ -530,7 +530,12 @@ class TreeBasedTensorLearning(tensap.TensorLearning):
         # the product of the ranks of their children, and their children cannot
         # be enriched themselves.
         tree = tensor_for_selection.tree
-        rank = f.tensor.ranks
+        rank = np.array(f.tensor.ranks)
+        rank[tree.dim2ind - 1] = np.where(
+            f.tensor.is_active_node[tree.dim2ind - 1],
+            rank[tree.dim2ind - 1],
+            np.array(f.tensor.shape)[: tree.dim2ind.size],
+        )
         desc = np.setdiff1d(
             np.arange(1, tree.nb_nodes + 1), np.nonzero(tree.is_leaf)[0] + 1
         )
-- 
2.43.0


From cd13a0fbd8fe11d48a2342f2e93ded6c2924757c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:48 +0000
Subject: [PATCH 40/43] fix: the standard deviation of a constant discrete
 variable is not a number

---
 tensap/functions/measures/discrete_random_variable.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tensap/functions/measures/discrete_random_variable.py b/tensap/functions/measures/discrete_random_variable.py
index 882d74c..2504de2 100644
--- a/tensap/functions/measures/discrete_random_variable.py
+++ b/tensap/functions/measures/discrete_random_variable.py
@@ -243,9 +243,8 @@ class DiscreteRandomVariable(tensap.RandomVariable):
             The variance of the random variable.
 
         """
-        return (
-            np.matmul(np.transpose(self.probabilities), self.values**2)
-            - self.mean() ** 2
+        return np.matmul(
+            np.transpose(self.probabilities), (self.values - self.mean()) ** 2
         )
 
     def random_variable_statistics(self):
-- 
2.43.0


From 422c05780bb1532b7fd5922dff0bbe8cbc2c9ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:26 +0000
Subject: [PATCH 41/43] fix: is_active_dim with a scalar dimension always
 raised IndexError (0-d array indexed)

---
 tensap/tensor_algebra/tensors/tree_based_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tensor_algebra/tensors/tree_based_tensor.py b/tensap/tensor_algebra/tensors/tree_based_tensor.py
index 4c03ca8..3e9b93f 100644
--- a/tensap/tensor_algebra/tensors/tree_based_tensor.py
+++ b/tensap/tensor_algebra/tensors/tree_based_tensor.py
@@ -234,7 +234,7 @@ class TreeBasedTensor:
         """
         result = np.isin(self.tree.dim2ind[dim], self.active_nodes)
         if result.size == 1:
-            result = result[0]
+            result = result.item()
         return result
 
     def __repr__(self):
-- 
2.43.0


From 1a1c91080b23246f66cebdc31010170d97bed0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:26 +0000
Subject: [PATCH 42/43] fix: cdf of a discrete random variable could exceed one
 by round-off, so that transferring its largest value gave NaN or an
 IndexError (values [-4,-1,0,2], probabilities [4,3,3,3]/13)

---
 tensap/functions/measures/discrete_random_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/functions/measures/discrete_random_variable.py b/tensap/functions/measures/discrete_random_variable.py
index 2504de2..f4bc224 100644
--- a/tensap/functions/measures/discrete_random_variable.py
+++ b/tensap/functions/measures/discrete_random_variable.py
@@ -204,7 +204,7 @@ class DiscreteRandomVariable(tensap.RandomVariable):
         v = np.tile(np.reshape(self.values, (-1, 1)), (1, M))
         w = np.tile(np.reshape(self.probabilities, (-1, 1)), (1, M))
         w[v > x] = 0
-        return np.reshape(np.sum(w, 0), shape)
+        return np.reshape(np.minimum(np.sum(w, 0), 1), shape)
 
     def icdf(self, p):
         """
-- 
2.43.0


From 1f4f235726b47324e40ea8e8b256cbf02f7eeec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:34:52 +0000
Subject: [PATCH 43/43] fix: with_bounded_weighted_norm missed indices exactly
 on the bound when the bound divided by a decimal weight rounds down (bound
 0.3, weight 0.1)

---
 tensap/tools/multi_indices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensap/tools/multi_indices.py b/tensap/tools/multi_indices.py
index 27746d6..1c12b4c 100644
--- a/tensap/tools/multi_indices.py
+++ b/tensap/tools/multi_indices.py
@@ -675,7 +675,7 @@ class MultiIndices:
 
         """
         assert d == len(w), "Length of w must be equal to the dimension d"
-        ind = [np.arange(int(np.floor(m / x)) + 1) for x in w]
+        ind = [np.arange(int(np.floor(m / x * (1 + 1e-12))) + 1) for x in w]
         ind = MultiIndices.product_set(ind)
         n = ind.weighted_norm(p, w)
         # Relative tolerance for the rounding errors in the norm
-- 
2.43.0

