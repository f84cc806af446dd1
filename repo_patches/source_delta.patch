From 9b357771b186835e9ad894ff807442fc9bd0fcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:10 +0000
Subject: [PATCH 01/24] fix: AbstractJacobian.jTmjp contracted the wrong index
 of the Jacobian in its diagonal modes

---
 nnj/abstract_jacobian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nnj/abstract_jacobian.py b/nnj/abstract_jacobian.py
index 61bb8b1..44c6376 100644
--- a/nnj/abstract_jacobian.py
+++ b/nnj/abstract_jacobian.py
@@ -223,13 +223,13 @@ class AbstractJacobian:
             return torch.einsum("bji,bjk,bkl->bil", jacobian, matrix, jacobian)
         elif from_diag and not to_diag:
             # diag -> full
-            return torch.einsum("bij,bj,bjl->bil", jacobian, matrix, jacobian)
+            return torch.einsum("bji,bj,bjl->bil", jacobian, matrix, jacobian)
         elif not from_diag and to_diag:
             # full -> diag
-            return torch.einsum("bij,bjk,bki->bi", jacobian, matrix, jacobian)
+            return torch.einsum("bji,bjk,bki->bi", jacobian, matrix, jacobian)
         elif from_diag and to_diag:
             # diag -> diag
-            return torch.einsum("bij,bj,bji->bi", jacobian, matrix, jacobian)
+            return torch.einsum("bji,bj,bji->bi", jacobian, matrix, jacobian)
 
     @torch.no_grad()
     def get_weight(self) -> Tensor:
-- 
2.43.0


From 1e732223029e1598b1ce6ecae49ff2ba8a6e128e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:12 +0000
Subject: [PATCH 02/24] fix: AbstractJacobian products crashed on a None
 (identity) matrix

---
 nnj/abstract_jacobian.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/nnj/abstract_jacobian.py b/nnj/abstract_jacobian.py
index 44c6376..0bb4295 100644
--- a/nnj/abstract_jacobian.py
+++ b/nnj/abstract_jacobian.py
@@ -83,6 +83,8 @@ class AbstractJacobian:
         jacobian = self.jacobian(x, val, wrt=wrt)
         if jacobian is None:  # non parametric layer
             return None
+        if matrix is None:
+            return jacobian
         return torch.einsum("bij,bjk->bik", jacobian, matrix)
 
     @torch.no_grad()
@@ -121,6 +123,9 @@ class AbstractJacobian:
         jacobian = self.jacobian(x, val, wrt=wrt)
         if jacobian is None:  # non parametric layer
             return None
+        if matrix is None:
+            matrix = torch.ones_like(jacobian[:, 0, :])
+            from_diag = True
         if not from_diag and not to_diag:
             # full -> full
             return torch.einsum("bij,bjk,blk->bil", jacobian, matrix, jacobian)
@@ -180,6 +185,8 @@ class AbstractJacobian:
         jacobian = self.jacobian(x, val, wrt=wrt)
         if jacobian is None:  # non parametric layer
             return None
+        if matrix is None:
+            return jacobian
         return torch.einsum("bij,bjk->bik", matrix, jacobian)
 
     @torch.no_grad()
@@ -218,6 +225,9 @@ class AbstractJacobian:
         jacobian = self.jacobian(x, val, wrt=wrt)
         if jacobian is None:  # non parametric layer
             return None
+        if matrix is None:
+            matrix = torch.ones_like(jacobian[:, :, 0])
+            from_diag = True
         if not from_diag and not to_diag:
             # full -> full
             return torch.einsum("bji,bjk,bkl->bil", jacobian, matrix, jacobian)
-- 
2.43.0


From e61a0d0e0fee28c2fa8cba0043f76fd3615edb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:12 +0000
Subject: [PATCH 03/24] fix: L2Norm.jacobian ignored eps in the derivative of
 the norm

---
 nnj/l2norm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nnj/l2norm.py b/nnj/l2norm.py
index 634acbb..4fcbf23 100644
--- a/nnj/l2norm.py
+++ b/nnj/l2norm.py
@@ -37,8 +37,10 @@ class L2Norm(AbstractJacobian, nn.Module):
             b, d = x.shape
             norm = torch.norm(x, p=2, dim=1)
             normalized_x = torch.einsum("b,bi->bi", 1.0 / (norm + self.eps), x)
-            jacobian = torch.einsum("bi,bj->bij", normalized_x, normalized_x)
-            jacobian = torch.diag(torch.ones(d, device=x.device)).expand(b, d, d) - jacobian
+            # derivative of the norm, with the subgradient 0 in the origin
+            norm_gradient = torch.einsum("b,bi->bi", 1.0 / torch.where(norm > 0, norm, torch.ones_like(norm)), x)
+            jacobian = torch.einsum("bi,bj->bij", normalized_x, norm_gradient)
+            jacobian = torch.diag(torch.ones(d, dtype=x.dtype, device=x.device)).expand(b, d, d) - jacobian
             jacobian = torch.einsum("b,bij->bij", 1.0 / (norm + self.eps), jacobian)
             return jacobian
         elif wrt == "weight":
-- 
2.43.0


From c1d5650ce114b63b79fc568f1cf27111f9c4240c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:12 +0000
Subject: [PATCH 04/24] fix: Conv2d.jTmjp with a None metric built a diagonal
 of the wrong shape

---
 nnj/conv2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnj/conv2d.py b/nnj/conv2d.py
index 2cc3290..e57e996 100644
--- a/nnj/conv2d.py
+++ b/nnj/conv2d.py
@@ -380,7 +380,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
         if val is None:
             val = self.forward(x)
         if matrix is None:
-            matrix = torch.ones_like(val)
+            matrix = torch.ones_like(val).reshape(val.shape[0], -1)
             from_diag = True
         if wrt == "input":
             if not from_diag and not to_diag:
-- 
2.43.0


From 77c0cf26bdfa99808c0c5eae9859fabddbf6dd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:12 +0000
Subject: [PATCH 05/24] fix: Sequential hooks broke deep copies, shared layers
 and direct use of sub-modules

---
 nnj/sequential.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/nnj/sequential.py b/nnj/sequential.py
index 5d3721c..8078a72 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -20,12 +20,6 @@ class Sequential(AbstractJacobian, nn.Sequential):
         self.add_hooks = add_hooks
         if self.add_hooks:
             self.feature_maps = []
-            self.handles = []
-
-            for k in range(len(self._modules)):
-                self.handles.append(
-                    self._modules_list[k].register_forward_hook(lambda m, i, o: self.feature_maps.append(o.detach()))
-                )
 
     def forward(self, x: Tensor) -> Union[Tensor, Tuple[Tensor, Tensor]]:
         if self.add_hooks:
@@ -33,6 +27,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
         for module in self._modules.values():
             val = module(x)
             x = val
+            if self.add_hooks:
+                self.feature_maps.append(x.detach())
         return x
 
     @torch.no_grad()
-- 
2.43.0


From 6ea359584c07b2bcda4263827e8448f49133f29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:12 +0000
Subject: [PATCH 06/24] fix: Sequential products with a given val used feature
 maps of the last forward pass

---
 nnj/sequential.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/nnj/sequential.py b/nnj/sequential.py
index 8078a72..fe3191e 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -133,9 +133,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
 
         assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
 
-        # forward pass
-        if val is None:
-            val = self.forward(x)
+        # forward pass (the stored feature maps may belong to another input)
+        val = self.forward(x)
         if wrt == "input":
             if matrix is None:
                 matrix = torch.ones_like(x)
@@ -224,9 +223,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
 
         assert wrt in ["input", "weight"]
 
-        # forward pass for computing hook values
-        if val is None:
-            val = self.forward(x)
+        # forward pass for computing the feature maps (the stored ones may belong to another input)
+        val = self.forward(x)
 
         # backward pass
         vs = []
@@ -259,9 +257,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
 
         assert wrt in ["input", "weight"]
 
-        # forward pass
-        if val is None:
-            val = self.forward(x)
+        # forward pass (the stored feature maps may belong to another input)
+        val = self.forward(x)
         if matrix is None:
             vs = val.shape
             matrix = torch.eye(vs[1:].numel(), vs[1:].numel(), dtype=x.dtype, device=x.device).repeat(vs[0], 1, 1)
@@ -297,9 +294,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
         jacobian.T matrix jacobian product
         """
         assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
-        # forward pass
-        if val is None:
-            val = self.forward(x)
+        # forward pass (the stored feature maps may belong to another input)
+        val = self.forward(x)
         if matrix is None:
             matrix = torch.ones((val.shape[0], val.shape[1:].numel()), device=x.device, dtype=x.dtype)
             from_diag = True
-- 
2.43.0


From 3473c00f2c526d9aca7c42426ea1ab3c01f03136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:12 +0000
Subject: [PATCH 07/24] fix: Sequential metric products with a None metric:
 shape for image inputs and diag_backprop

---
 nnj/sequential.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nnj/sequential.py b/nnj/sequential.py
index fe3191e..367029b 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -131,13 +131,15 @@ class Sequential(AbstractJacobian, nn.Sequential):
         jacobian matrix jacobian.T product
         """
 
+        if matrix is None:
+            from_diag = True
         assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
 
         # forward pass (the stored feature maps may belong to another input)
         val = self.forward(x)
         if wrt == "input":
             if matrix is None:
-                matrix = torch.ones_like(x)
+                matrix = torch.ones_like(x).reshape(x.shape[0], -1)
                 from_diag = True
             # forward pass again
             for k in range(len(self._modules_list)):
@@ -293,6 +295,8 @@ class Sequential(AbstractJacobian, nn.Sequential):
         """
         jacobian.T matrix jacobian product
         """
+        if matrix is None:
+            from_diag = True
         assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
         # forward pass (the stored feature maps may belong to another input)
         val = self.forward(x)
-- 
2.43.0


From cca1f19e8fb8910735c2fd7e0582fd73a793a906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:12 +0000
Subject: [PATCH 08/24] fix: SkipConnection.jacobian with a given val, and
 weight products of a branch without parameters

---
 nnj/skipconnection.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/nnj/skipconnection.py b/nnj/skipconnection.py
index 610da31..8caa046 100644
--- a/nnj/skipconnection.py
+++ b/nnj/skipconnection.py
@@ -25,7 +25,9 @@ class SkipConnection(nn.Module, AbstractJacobian):
         wrt: Literal["input", "weight"] = "input",
     ) -> Tensor:
         """Returns the Jacobian matrix"""
-        jac = self._F.jacobian(x, val, wrt=wrt)
+        jac = self._F.jacobian(x, None if val is None else val[:, x.shape[1] :], wrt=wrt)
+        if jac is None:  # non parametric branch
+            return None
         b = x.shape[0]
         l = x[0].numel()
         if val is None:
@@ -58,6 +60,8 @@ class SkipConnection(nn.Module, AbstractJacobian):
         if wrt == "input":
             return torch.cat([vector, jvp], dim=1)
         elif wrt == "weight":
+            if jvp is None:  # non parametric branch
+                return None
             zeros = torch.zeros_like(x).reshape(b, l)
             return torch.cat([zeros, jvp], dim=1)
 
@@ -80,6 +84,8 @@ class SkipConnection(nn.Module, AbstractJacobian):
         if wrt == "input":
             return torch.cat([matrix, jmp], dim=1)
         elif wrt == "weight":
+            if jmp is None:  # non parametric branch
+                return None
             zeros = torch.zeros(b, l, matrix.shape[2], device=x.device, dtype=x.dtype)
             return torch.cat([zeros, jmp], dim=1)
 
@@ -127,6 +133,8 @@ class SkipConnection(nn.Module, AbstractJacobian):
             mjTp = self._F.jmp(x, None if val is None else val[:, l1:], matrix.transpose(1, 2), wrt=wrt).transpose(1, 2)
             return torch.cat([torch.cat([matrix, mjTp], dim=2), torch.cat([jmp, jmjTp], dim=2)], dim=1)
         elif wrt == "weight":
+            if jmjTp is None:  # non parametric branch
+                return None
             if to_diag:
                 return torch.cat([torch.zeros_like(x).reshape(b, l1), jmjTp], dim=1)
             zeros = torch.zeros(b, l2 - l1, l1, device=x.device, dtype=x.dtype)
-- 
2.43.0


From 76b4e60d68ba8f801c2f01a444602d7113fa8bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:12 +0000
Subject: [PATCH 09/24] fix: SkipConnection metric products with a None metric

---
 nnj/skipconnection.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nnj/skipconnection.py b/nnj/skipconnection.py
index 8caa046..975e7ba 100644
--- a/nnj/skipconnection.py
+++ b/nnj/skipconnection.py
@@ -103,6 +103,11 @@ class SkipConnection(nn.Module, AbstractJacobian):
         """
         jacobian matrix jacobian.T product
         """
+        if matrix is None:
+            matrix = torch.ones(
+                (x.shape[0], x[0].numel() if wrt == "input" else self._n_params), dtype=x.dtype, device=x.device
+            )
+            from_diag = True
         assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
         if val is None:
             val = self.forward(x)
@@ -197,12 +202,12 @@ class SkipConnection(nn.Module, AbstractJacobian):
         """
         jacobian.T matrix jacobian product
         """
-        assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
         if val is None:
             val = self.forward(x)
         if matrix is None:
-            matrix = torch.ones_like(val)
+            matrix = torch.ones_like(val).reshape(val.shape[0], -1)
             from_diag = True
+        assert (not diag_backprop) or (diag_backprop and from_diag and to_diag)
         l = x[0].numel()
         jTmjp = self._F.jTmjp(
             x,
-- 
2.43.0


From 5ff579256e7c6cf663d0d5802e246bc2a28f2c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:12 +0000
Subject: [PATCH 10/24] fix: Softplus.jacobian ignored the threshold above
 which the layer is linear

---
 nnj/softplus.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nnj/softplus.py b/nnj/softplus.py
index 1275a45..d9bd79e 100644
--- a/nnj/softplus.py
+++ b/nnj/softplus.py
@@ -23,7 +23,10 @@ class Softplus(AbstractDiagonalJacobian, nn.Softplus):
         if wrt == "input":
             if val is None:
                 val = self.forward(x)
-            diag_jacobian = (torch.sigmoid(self.beta * x)).reshape(val.shape[0], -1)
+            diag_jacobian = torch.sigmoid(self.beta * x)
+            # above the threshold the layer is the identity
+            diag_jacobian = torch.where(self.beta * x > self.threshold, torch.ones_like(x), diag_jacobian)
+            diag_jacobian = diag_jacobian.reshape(val.shape[0], -1)
             if diag:
                 return diag_jacobian
             else:
-- 
2.43.0


From 40dd316875d0e89d75765c848574908e3d541142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:12 +0000
Subject: [PATCH 11/24] fix: MaxPool2d products with a given val used the
 indexes of the last forward pass

---
 nnj/maxpool2d.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/nnj/maxpool2d.py b/nnj/maxpool2d.py
index 7258f04..e96199d 100644
--- a/nnj/maxpool2d.py
+++ b/nnj/maxpool2d.py
@@ -35,8 +35,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
     ) -> Union[Tensor, None]:
         """Returns the Jacobian matrix"""
         if wrt == "input":
-            if val is None:
-                val = self.forward(x)
+            val = self.forward(x)  # the stored indexes may belong to another input
             b, c1, h1, w1 = x.shape
             _, c2, h2, w2 = val.shape
             assert c1 == c2
@@ -88,8 +87,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
         if matrix is None:
             return self.jacobian(x, val, wrt=wrt)
         if wrt == "input":
-            if val is None:
-                val = self.forward(x)
+            val = self.forward(x)  # the stored indexes may belong to another input
             b, c1, h1, w1 = x.shape
             _, c2, h2, w2 = val.shape
             matrix_orig_shape = matrix.shape
@@ -158,8 +156,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
         vector jacobian product
         """
         if wrt == "input":
-            if val is None:
-                val = self.forward(x)
+            val = self.forward(x)  # the stored indexes may belong to another input
             b, c1, h1, w1 = x.shape
             _, c2, h2, w2 = val.shape
             assert c1 == c2
@@ -195,8 +192,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
         if matrix is None:
             return self.jacobian(x, val, wrt=wrt)
         if wrt == "input":
-            if val is None:
-                val = self.forward(x)
+            val = self.forward(x)  # the stored indexes may belong to another input
             b, c1, h1, w1 = x.shape
             _, c2, h2, w2 = val.shape
             assert c1 == c2
@@ -234,8 +230,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
         """
         jacobian.T matrix jacobian product
         """
-        if val is None:
-            val = self.forward(x)
+        val = self.forward(x)  # the stored indexes may belong to another input
         b, c1, h1, w1 = x.shape
         _, c2, h2, w2 = val.shape
         assert c1 == c2
-- 
2.43.0


From 89be95dc39b4a48b6d68781234cf29121c874903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:12 +0000
Subject: [PATCH 12/24] fix: MaxPool2d.jmp only accepted matrices with as many
 columns as inputs

---
 nnj/maxpool2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nnj/maxpool2d.py b/nnj/maxpool2d.py
index e96199d..19dc993 100644
--- a/nnj/maxpool2d.py
+++ b/nnj/maxpool2d.py
@@ -94,10 +94,10 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             assert matrix_orig_shape[0] == b
             assert matrix_orig_shape[1] == c1 * h1 * w1
 
-            matrix = matrix.reshape(b * c1, h1 * w1, c1, h1, w1)
+            matrix = matrix.reshape(b * c1, h1 * w1, matrix_orig_shape[2])
             arange_repeated = torch.repeat_interleave(torch.arange(b * c1), h2 * w2).long()
             idx = self.idx.reshape(-1)
-            matrix = matrix[arange_repeated, idx, :, :, :].reshape(*val.shape, c1, h1, w1)
+            matrix = matrix[arange_repeated, idx, :]
             matrix = matrix.reshape(b, c2 * h2 * w2, matrix_orig_shape[2])
             return matrix
         elif wrt == "weight":
-- 
2.43.0


From 307279b78ecdd5e25497a4ad3dd0b7cccabfde3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:12 +0000
Subject: [PATCH 13/24] fix: MaxPool2d backward products dropped contributions
 of overlapping windows

---
 nnj/maxpool2d.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nnj/maxpool2d.py b/nnj/maxpool2d.py
index 19dc993..06c1b9d 100644
--- a/nnj/maxpool2d.py
+++ b/nnj/maxpool2d.py
@@ -170,7 +170,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             idx = self.idx.reshape(b * c2, h2 * w2)
 
             vector_J = torch.zeros((b * c2, h1 * w1), device=vector.device)
-            vector_J[arange_repeated, idx] = vector
+            vector_J.index_put_((arange_repeated, idx), vector, accumulate=True)
             vector_J = vector_J.reshape(b, c1 * h1 * w1)
 
             return vector_J
@@ -208,7 +208,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             idx = idx.reshape(b * n_rows * c2, h2 * w2)
 
             matrix_J = torch.zeros((b * n_rows * c1, h1 * w1), device=matrix.device)
-            matrix_J[arange_repeated, idx] = matrix
+            matrix_J.index_put_((arange_repeated, idx), matrix, accumulate=True)
             matrix_J = matrix_J.reshape(b, n_rows, c1 * h1 * w1)
 
             return matrix_J
@@ -258,7 +258,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
                 )
 
                 Jt_matrix_J = torch.zeros((b * c1 * c1, h1 * w1, h1 * w1), device=matrix.device)
-                Jt_matrix_J[arange_repeated, idx_row, idx_col] = matrix
+                Jt_matrix_J.index_put_((arange_repeated, idx_row, idx_col), matrix, accumulate=True)
                 Jt_matrix_J = (
                     Jt_matrix_J.reshape(b, c1, c1, h1 * w1, h1 * w1)
                     .movedim(-2, -3)
@@ -291,7 +291,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
 
                 Jt_matrix_J = torch.zeros_like(x)
                 Jt_matrix_J = Jt_matrix_J.reshape(b * c1, h1 * w1)
-                Jt_matrix_J[arange_repeated, idx] = matrix.reshape(b * c2, h2 * w2)
+                Jt_matrix_J.index_put_((arange_repeated, idx), matrix.reshape(b * c2, h2 * w2), accumulate=True)
 
                 return Jt_matrix_J.reshape(b, c1 * h1 * w1)
         elif wrt == "weight":
-- 
2.43.0


From 5c97e36bddbaffaa048fc32bbfea5b9587a6ec51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:12 +0000
Subject: [PATCH 14/24] fix: Conv2d, MaxPool2d and Upsample used
 single-precision buffers for double-precision inputs

---
 nnj/conv2d.py    | 10 +++++-----
 nnj/maxpool2d.py |  8 ++++----
 nnj/upsample.py  | 10 +++++-----
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/nnj/conv2d.py b/nnj/conv2d.py
index e57e996..b7692c7 100644
--- a/nnj/conv2d.py
+++ b/nnj/conv2d.py
@@ -51,7 +51,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
         if val is None:
             val = self.forward(x)
         b, c2, h2, w2 = val.shape
-        identity = torch.ones(b, c2 * h2 * w2, device=x.device)
+        identity = torch.ones(b, c2 * h2 * w2, dtype=x.dtype, device=x.device)
         identity = torch.diag_embed(identity)
         j = self.mjp(x, val, identity, wrt=wrt)
         return j
@@ -218,7 +218,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                 # switch batch size and output channel
                 vector = vector.movedim(0, 1)
 
-                vector_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, device=x.device)
+                vector_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, dtype=x.dtype, device=x.device)
                 for i in range(b):
                     # set the weight to the convolution
                     input_single_batch = x[i : i + 1, :, :, :]
@@ -328,7 +328,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                 # switch batch size and output channel
                 matrixT_cols = matrixT_cols.movedim(0, 1)
 
-                matrix_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, num_of_rows, device=x.device)
+                matrix_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, num_of_rows, dtype=x.dtype, device=x.device)
                 for i in range(b):
                     # set the weight to the convolution
                     input_single_batch = x[i : i + 1, :, :, :]
@@ -503,7 +503,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                     Jt_matrix_J = vmap(single_batch_fun)(x, matrix)
 
                 else:
-                    Jt_matrix_J = torch.zeros(b, self._n_params, self._n_params, device=x.device)
+                    Jt_matrix_J = torch.zeros(b, self._n_params, self._n_params, dtype=x.dtype, device=x.device)
                     for i in range(b):
                         # set the weight to the convolution
                         input_single_batch = x[i : i + 1, :, :, :]
@@ -625,7 +625,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                 else:
                     # switch batch size and output channel
                     matrix = matrix.movedim(0, 1)
-                    Jt_matrix_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, device=x.device)
+                    Jt_matrix_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, dtype=x.dtype, device=x.device)
                     flip_squared_input = flip_squared_input.movedim(0, 1)
 
                     for i in range(b):
diff --git a/nnj/maxpool2d.py b/nnj/maxpool2d.py
index 06c1b9d..693893d 100644
--- a/nnj/maxpool2d.py
+++ b/nnj/maxpool2d.py
@@ -43,7 +43,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             # identity = torch.diag_embed(identity)
             # j = self.mjp(x, val, identity, wrt="input")
 
-            identity = torch.ones(b, c1 * h1 * w1, device=x.device)
+            identity = torch.ones(b, c1 * h1 * w1, dtype=x.dtype, device=x.device)
             identity = torch.diag_embed(identity)
             j = self.jmp(x, val, identity, wrt="input")
             # print(j.shape)
@@ -169,7 +169,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             # indexes for col
             idx = self.idx.reshape(b * c2, h2 * w2)
 
-            vector_J = torch.zeros((b * c2, h1 * w1), device=vector.device)
+            vector_J = torch.zeros((b * c2, h1 * w1), dtype=vector.dtype, device=vector.device)
             vector_J.index_put_((arange_repeated, idx), vector, accumulate=True)
             vector_J = vector_J.reshape(b, c1 * h1 * w1)
 
@@ -207,7 +207,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
             idx = self.idx.reshape(b, c2, h2 * w2).unsqueeze(1).expand(-1, n_rows, -1, -1)
             idx = idx.reshape(b * n_rows * c2, h2 * w2)
 
-            matrix_J = torch.zeros((b * n_rows * c1, h1 * w1), device=matrix.device)
+            matrix_J = torch.zeros((b * n_rows * c1, h1 * w1), dtype=matrix.dtype, device=matrix.device)
             matrix_J.index_put_((arange_repeated, idx), matrix, accumulate=True)
             matrix_J = matrix_J.reshape(b, n_rows, c1 * h1 * w1)
 
@@ -257,7 +257,7 @@ class MaxPool2d(nn.MaxPool2d, AbstractJacobian):
                     idx.unsqueeze(2).expand(-1, -1, c1, -1, -1).reshape(b * c1 * c1, h2 * w2, h2 * w2).movedim(-1, -2)
                 )
 
-                Jt_matrix_J = torch.zeros((b * c1 * c1, h1 * w1, h1 * w1), device=matrix.device)
+                Jt_matrix_J = torch.zeros((b * c1 * c1, h1 * w1, h1 * w1), dtype=matrix.dtype, device=matrix.device)
                 Jt_matrix_J.index_put_((arange_repeated, idx_row, idx_col), matrix, accumulate=True)
                 Jt_matrix_J = (
                     Jt_matrix_J.reshape(b, c1, c1, h1 * w1, h1 * w1)
diff --git a/nnj/upsample.py b/nnj/upsample.py
index 898360a..297579a 100644
--- a/nnj/upsample.py
+++ b/nnj/upsample.py
@@ -26,7 +26,7 @@ class Upsample(nn.Upsample, AbstractJacobian):
             b, c1, h1, w1 = x.shape
             _, c2, h2, w2 = val.shape
             assert c1 == c2
-            identity = torch.ones(b, c2 * h2 * w2, device=x.device)
+            identity = torch.ones(b, c2 * h2 * w2, dtype=x.dtype, device=x.device)
             identity = torch.diag_embed(identity)
             j = self.mjp(x, val, identity, wrt="input")
             return j
@@ -133,7 +133,7 @@ class Upsample(nn.Upsample, AbstractJacobian):
             assert c1 == c2
             assert vector.shape == (b, c2 * h2 * w2)
 
-            weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), device=x.device)
+            weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), dtype=x.dtype, device=x.device)
 
             vector_J = F.conv2d(
                 vector.reshape(b * c2, 1, h2, w2),
@@ -172,7 +172,7 @@ class Upsample(nn.Upsample, AbstractJacobian):
             assert matrix.shape[0] == b and matrix.shape[2] == c2 * h2 * w2
             n_rows = matrix.shape[1]
 
-            weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), device=x.device)
+            weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), dtype=x.dtype, device=x.device)
 
             matrix_J = F.conv2d(
                 matrix.reshape(b * n_rows * c2, 1, h2, w2),
@@ -219,7 +219,7 @@ class Upsample(nn.Upsample, AbstractJacobian):
             if not from_diag and not to_diag:
                 # full -> full
 
-                weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), device=x.device)
+                weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), dtype=x.dtype, device=x.device)
 
                 matrix = matrix.reshape(b, c2, h2 * w2, c2, h2 * w2)
                 matrix = matrix.movedim(2, 3)
@@ -268,7 +268,7 @@ class Upsample(nn.Upsample, AbstractJacobian):
                 )
             elif from_diag and to_diag:
                 # diag -> diag
-                weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), device=x.device)
+                weight = torch.ones(1, 1, int(self.scale_factor), int(self.scale_factor), dtype=x.dtype, device=x.device)
 
                 matrix = F.conv2d(
                     matrix.reshape(b * c2, 1, h2, w2),
-- 
2.43.0


From 4a04ed0ca63d5d1b92620ab017d42bf5b7769171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:07 +0000
Subject: [PATCH 15/24] fix: LogLikelihood rejected its own default
 aggregate_batch="return all" and returned None for None

---
 nnj/log_likelihoods.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nnj/log_likelihoods.py b/nnj/log_likelihoods.py
index 3e57db9..64d9b18 100644
--- a/nnj/log_likelihoods.py
+++ b/nnj/log_likelihoods.py
@@ -15,7 +15,9 @@ class LogLikelihood(nn.Module):
     ):
         super().__init__()
 
-        assert aggregate_batch in (None, "sum", "average")
+        if aggregate_batch is None:
+            aggregate_batch = "return all"
+        assert aggregate_batch in ("return all", "sum", "average")
         assert metric_shape in ("full", "diag")
         assert metric_backprop in ("exact", "approx")
 
-- 
2.43.0


From 1700b252d179e120ced7456cc73a474c9b7c721d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:07 +0000
Subject: [PATCH 16/24] fix: ggn with metric_shape='full' could not be
 aggregated for a Sequential

---
 nnj/log_likelihoods.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/nnj/log_likelihoods.py b/nnj/log_likelihoods.py
index 64d9b18..b9aa7e3 100644
--- a/nnj/log_likelihoods.py
+++ b/nnj/log_likelihoods.py
@@ -6,6 +6,13 @@ from torch import nn, Tensor
 from nnj.abstract_jacobian import AbstractJacobian
 
 
+def _aggregate_blocks(blocks, reduction):
+    """Reduces the batch dimension of a (nested) list of blocks"""
+    if isinstance(blocks, list):
+        return [_aggregate_blocks(block, reduction) for block in blocks]
+    return reduction(blocks, dim=0)
+
+
 class LogLikelihood(nn.Module):
     def __init__(
         self,
@@ -90,9 +97,9 @@ class LogGaussian(LogLikelihood):
         if self.aggregate_batch == "return all":
             return JtHJ
         elif self.aggregate_batch == "sum":
-            return torch.sum(JtHJ, dim=0)
+            return _aggregate_blocks(JtHJ, torch.sum)
         elif self.aggregate_batch == "average":
-            return torch.mean(JtHJ, dim=0)
+            return _aggregate_blocks(JtHJ, torch.mean)
 
 
 class LogBinaryBernoulli(LogLikelihood):
@@ -166,9 +173,9 @@ class LogBinaryBernoulli(LogLikelihood):
         if self.aggregate_batch == "return all":
             return JtHJ
         elif self.aggregate_batch == "sum":
-            return torch.sum(JtHJ, dim=0)
+            return _aggregate_blocks(JtHJ, torch.sum)
         elif self.aggregate_batch == "average":
-            return torch.mean(JtHJ, dim=0)
+            return _aggregate_blocks(JtHJ, torch.mean)
 
 
 class LogBernoulli(LogLikelihood):
@@ -258,6 +265,6 @@ class LogBernoulli(LogLikelihood):
         if self.aggregate_batch == "return all":
             return JtHJ
         elif self.aggregate_batch == "sum":
-            return torch.sum(JtHJ, dim=0)
+            return _aggregate_blocks(JtHJ, torch.sum)
         elif self.aggregate_batch == "average":
-            return torch.mean(JtHJ, dim=0)
+            return _aggregate_blocks(JtHJ, torch.mean)
-- 
2.43.0


From 28d8079809b30b16f0bd1d6fed3e8db8e635ca0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:07 +0000
Subject: [PATCH 17/24] fix: LogBernoulli.ggn crashed for outputs with more
 than one dimension

---
 nnj/log_likelihoods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnj/log_likelihoods.py b/nnj/log_likelihoods.py
index b9aa7e3..192a5da 100644
--- a/nnj/log_likelihoods.py
+++ b/nnj/log_likelihoods.py
@@ -234,7 +234,7 @@ class LogBernoulli(LogLikelihood):
         b = x.shape[0]
         val = model(x)
         c = val.shape[-1]
-        l = val[0].numel() / c
+        l = val[0].numel() // c
 
         exp_val = torch.exp(val)
         normalization = torch.sum(exp_val, dim=-1).unsqueeze(-1).expand(val.shape)
-- 
2.43.0


From b6b080a83a26fd1a057330741833ab1ce963c8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:07 +0000
Subject: [PATCH 18/24] fix: Bernoulli gradients and GGNs were NaN for large
 logits

---
 nnj/log_likelihoods.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/nnj/log_likelihoods.py b/nnj/log_likelihoods.py
index 192a5da..64ec67d 100644
--- a/nnj/log_likelihoods.py
+++ b/nnj/log_likelihoods.py
@@ -134,7 +134,7 @@ class LogBinaryBernoulli(LogLikelihood):
         val = model(x)
         assert val.shape == target.shape
 
-        binary_bernoulli_prob = torch.exp(val) / (1.0 + torch.exp(val))
+        binary_bernoulli_prob = torch.sigmoid(val)
         residual = (target - binary_bernoulli_prob).reshape(b, -1)
         gradient = model.vjp(x, val, residual, wrt=wrt)
 
@@ -156,7 +156,7 @@ class LogBinaryBernoulli(LogLikelihood):
         b = x.shape[0]
         val = model(x)
 
-        bernoulli_prob = torch.exp(val) / (1.0 + torch.exp(val))
+        bernoulli_prob = torch.sigmoid(val)
         log_bernoulli_hessian = bernoulli_prob**2 - bernoulli_prob
         log_bernoulli_hessian = log_bernoulli_hessian.reshape(b, -1)
 
@@ -209,9 +209,7 @@ class LogBernoulli(LogLikelihood):
         val = model(x)
         assert val.shape == target.shape
 
-        exp_val = torch.exp(val)
-        normalization = torch.sum(exp_val, dim=-1).unsqueeze(-1).expand(val.shape)
-        bernoulli_prob = exp_val / normalization
+        bernoulli_prob = torch.softmax(val, dim=-1)
 
         residual = (target - bernoulli_prob).reshape(b, -1)
         gradient = model.vjp(x, val, residual, wrt=wrt)
@@ -236,9 +234,7 @@ class LogBernoulli(LogLikelihood):
         c = val.shape[-1]
         l = val[0].numel() // c
 
-        exp_val = torch.exp(val)
-        normalization = torch.sum(exp_val, dim=-1).unsqueeze(-1).expand(val.shape)
-        bernoulli_prob = exp_val / normalization
+        bernoulli_prob = torch.softmax(val, dim=-1)
         diag = torch.diag_embed(bernoulli_prob)
         outer = torch.einsum("...i,...j->...ij", bernoulli_prob, bernoulli_prob)
         log_bernoulli_hessian = outer - diag
-- 
2.43.0


From 7c7f789ac5a1fc3f910495737ce02b889b9e30c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:07 +0000
Subject: [PATCH 19/24] fix: convert_to_nnj dropped hyper-parameters, missing
 biases and nested stacks

---
 nnj/utils.py | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/nnj/utils.py b/nnj/utils.py
index 8a0efb6..2a89940 100644
--- a/nnj/utils.py
+++ b/nnj/utils.py
@@ -14,21 +14,50 @@ def convert_to_nnj(sequential: Sequential) -> Sequential:
             nnj_layer = getattr(nnj, layer.__class__.__name__)(
                 in_features=layer.in_features,
                 out_features=layer.out_features,
+                bias=layer.bias is not None,
             )
             nnj_layer.weight.data = layer.weight.data
-            nnj_layer.bias.data = layer.bias.data
+            if layer.bias is not None:
+                nnj_layer.bias.data = layer.bias.data
         elif layer.__class__.__name__ == "Conv2d":
             nnj_layer = getattr(nnj, layer.__class__.__name__)(
                 in_channels=layer.in_channels,
                 out_channels=layer.out_channels,
                 kernel_size=layer.kernel_size,
+                stride=layer.stride,
+                padding=layer.padding,
+                dilation=layer.dilation,
+                groups=layer.groups,
+                bias=layer.bias is not None,
+                padding_mode=layer.padding_mode,
             )
             nnj_layer.weight.data = layer.weight.data
-            nnj_layer.bias.data = layer.bias.data
+            if layer.bias is not None:
+                nnj_layer.bias.data = layer.bias.data
         elif "Pool" in layer.__class__.__name__:
             nnj_layer = getattr(nnj, layer.__class__.__name__)(
                 kernel_size=layer.kernel_size,
+                stride=layer.stride,
+                padding=layer.padding,
+                dilation=layer.dilation,
+                ceil_mode=layer.ceil_mode,
             )
+        elif layer.__class__.__name__ == "Softplus":
+            nnj_layer = nnj.Softplus(beta=layer.beta, threshold=layer.threshold)
+        elif layer.__class__.__name__ == "Upsample":
+            nnj_layer = nnj.Upsample(
+                size=layer.size,
+                scale_factor=layer.scale_factor,
+                mode=layer.mode,
+                align_corners=layer.align_corners,
+                recompute_scale_factor=layer.recompute_scale_factor,
+            )
+        elif layer.__class__.__name__ == "Flatten" and isinstance(layer, nn.Flatten):
+            if (layer.start_dim, layer.end_dim) != (1, -1):
+                raise NotImplementedError("nnj.Flatten always flattens all dimensions but the first")
+            nnj_layer = nnj.Flatten()
+        elif layer.__class__.__name__ == "Sequential":
+            nnj_layer = convert_to_nnj(layer)
         else:
             nnj_layer = getattr(nnj, layer.__class__.__name__)()
 
-- 
2.43.0


From 992e58c9c6dd55d2c2a13b08d416484705130e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:07 +0000
Subject: [PATCH 20/24] fix: invert_block_diagonal took the matrix itself for
 its Cholesky factor

---
 nnj/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnj/utils.py b/nnj/utils.py
index 2a89940..f68fad8 100644
--- a/nnj/utils.py
+++ b/nnj/utils.py
@@ -71,4 +71,4 @@ def convert_to_nnj(sequential: Sequential) -> Sequential:
 def invert_block_diagonal(matrix):
     if isinstance(matrix, list):
         return [invert_block_diagonal(m) for m in matrix]
-    return torch.cholesky_inverse(matrix)
+    return torch.cholesky_inverse(torch.linalg.cholesky(matrix))
-- 
2.43.0


From 83a95973684bf2d9c809a5cdd894cc0b4f3c95e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:40 +0000
Subject: [PATCH 21/24] fix: a model with a nested Sequential could not be
 deep-copied after a forward pass

---
 nnj/sequential.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnj/sequential.py b/nnj/sequential.py
index 367029b..49bcd91 100644
--- a/nnj/sequential.py
+++ b/nnj/sequential.py
@@ -23,7 +23,7 @@ class Sequential(AbstractJacobian, nn.Sequential):
 
     def forward(self, x: Tensor) -> Union[Tensor, Tuple[Tensor, Tensor]]:
         if self.add_hooks:
-            self.feature_maps = [x]
+            self.feature_maps = [x.detach()]
         for module in self._modules.values():
             val = module(x)
             x = val
-- 
2.43.0


From 98e9f2ce7d4a67e98644d8bde696e7fe33bcac3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:03 +0000
Subject: [PATCH 22/24] fix: Conv2d products were silently wrong for padding
 modes other than zeros

---
 nnj/conv2d.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nnj/conv2d.py b/nnj/conv2d.py
index b7692c7..6c6a23e 100644
--- a/nnj/conv2d.py
+++ b/nnj/conv2d.py
@@ -40,6 +40,11 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
                 f"I can't handle stride = {self.stride}, sorry. Only stride 1 is supported (until pytorch extends the conv class)"
             )
 
+    def _assert_zero_padding(self):
+        """the backward products are those of a convolution padded with zeros"""
+        if self.padding_mode != "zeros" and self.padding != (0, 0):
+            raise NotImplementedError(f"Jacobian products with padding_mode = {self.padding_mode}")
+
     @torch.no_grad()
     def jacobian(
         self,
@@ -164,6 +169,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
         """
         vector jacobian product
         """
+        self._assert_zero_padding()
         if val is None:
             val = self.forward(x)
         b, c1, h1, w1 = x.shape
@@ -255,6 +261,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
         """
         matrix jacobian product
         """
+        self._assert_zero_padding()
         if val is None:
             val = self.forward(x)
         if matrix is None:
@@ -377,6 +384,7 @@ class Conv2d(nn.Conv2d, AbstractJacobian):
         """
         jacobian.T matrix jacobian product
         """
+        self._assert_zero_padding()
         if val is None:
             val = self.forward(x)
         if matrix is None:
-- 
2.43.0


From 8270a8a02b1aac4544c0190b3b16ee215bcaa638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:35 +0000
Subject: [PATCH 23/24] fix: Upsample products were silently wrong for
 interpolating modes and fractional scale factors

---
 nnj/upsample.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/nnj/upsample.py b/nnj/upsample.py
index 297579a..e188845 100644
--- a/nnj/upsample.py
+++ b/nnj/upsample.py
@@ -12,6 +12,13 @@ class Upsample(nn.Upsample, AbstractJacobian):
         super().__init__(*args, **kwargs)
         self._n_params = 0
 
+    def _assert_integer_nearest(self):
+        """the backward products sum over the square of copies of each pixel"""
+        if not self.mode.startswith("nearest") or self.scale_factor != int(self.scale_factor):
+            raise NotImplementedError(
+                f"Jacobian products with mode = {self.mode}, scale_factor = {self.scale_factor}"
+            )
+
     @torch.no_grad()
     def jacobian(
         self,
@@ -126,6 +133,7 @@ class Upsample(nn.Upsample, AbstractJacobian):
         vector jacobian product
         """
         if wrt == "input":
+            self._assert_integer_nearest()
             if val is None:
                 val = self.forward(x)
             b, c1, h1, w1 = x.shape
@@ -164,6 +172,7 @@ class Upsample(nn.Upsample, AbstractJacobian):
         if matrix is None:
             return self.jacobian(x, val, wrt=wrt)
         if wrt == "input":
+            self._assert_integer_nearest()
             if val is None:
                 val = self.forward(x)
             b, c1, h1, w1 = x.shape
@@ -216,6 +225,7 @@ class Upsample(nn.Upsample, AbstractJacobian):
         else:
             assert matrix.shape == (b, c2 * h2 * w2, c2 * h2 * w2)
         if wrt == "input":
+            self._assert_integer_nearest()
             if not from_diag and not to_diag:
                 # full -> full
 
-- 
2.43.0


From 3ee8f384c98fc74e90caa3a67f01c936bb6bf1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:49 +0000
Subject: [PATCH 24/24] fix: set_weight copies the given vector instead of
 aliasing it

---
 nnj/abstract_jacobian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnj/abstract_jacobian.py b/nnj/abstract_jacobian.py
index 0bb4295..891177a 100644
--- a/nnj/abstract_jacobian.py
+++ b/nnj/abstract_jacobian.py
@@ -253,4 +253,4 @@ class AbstractJacobian:
         """
         Sets the weight of the module.
         """
-        torch.nn.utils.vector_to_parameters(weight, self.parameters())
+        torch.nn.utils.vector_to_parameters(weight.clone(), self.parameters())
-- 
2.43.0

