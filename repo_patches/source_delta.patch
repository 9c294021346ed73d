From 9fde29bb111444881a89515397b1c453cad46eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:01 +0000
Subject: [PATCH 01/23] fix: order of products in matrices_cumdot for composite
 lengths

For a composite number of matrices the product of the preceding groups was
multiplied on the wrong side (and, with three or more prime factors, with the
wrong group), so unrolled time-varying recursions (e.g. unroll_factor=5 or 7)
returned wrong values whenever the matrices do not commute.
---
 philtorch/mat.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/philtorch/mat.py b/philtorch/mat.py
index 8fe0549..80a65b7 100644
--- a/philtorch/mat.py
+++ b/philtorch/mat.py
@@ -155,8 +155,12 @@ def _mat_cumdot_runner(A: Tensor, leading_dims: int) -> Tensor:
     if A.dim() == leading_dims + 3:
         return accums
 
-    higher_powers = _mat_cumdot_runner(accums[..., -1, :, :], leading_dims)
-    tmp = accums[..., 1:, :-1, :, :] @ higher_powers[..., :-1, None, :, :]
+    # products of all the complete groups preceding each group, in order
+    higher_powers = _mat_cumdot_runner(accums[..., -1, :, :], leading_dims).flatten(
+        leading_dims, -3
+    )
+    accums = accums.flatten(leading_dims, -4)
+    tmp = higher_powers[..., :-1, None, :, :] @ accums[..., 1:, :-1, :, :]
     return torch.cat(
         [
             accums[..., :1, :, :, :],
-- 
2.43.0


From 72bdc5a0ee3332ce8eb9dd247e2fae78c40c4fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:01 +0000
Subject: [PATCH 02/23] fix: lpv.state_space with per-batch C or D when N
 equals the batch size

C of shape (B, N, M) and D of shape (B, N) were read as (N, O, M) and (N, O)
when N == B, so lpv.lfilter returned a wrong shape or wrong values for blocks
as long as the batch is large (including B == N == 1).
---
 philtorch/lpv/ssm.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/philtorch/lpv/ssm.py b/philtorch/lpv/ssm.py
index c37294a..319202c 100644
--- a/philtorch/lpv/ssm.py
+++ b/philtorch/lpv/ssm.py
@@ -502,16 +502,16 @@ def state_space(
                 Dx = torch.linalg.vecdot(D.conj(), x)
             case (D_batch, F) if D_batch == batch_size and F == features:
                 Dx = torch.linalg.vecdot(D.conj().unsqueeze(1), x)
-            case (DN, _) if DN == N:
-                assert (
-                    x.dim() == 2
-                ), f"Input signal x must be 2D when D is of shape ({N, features}), got {x.shape}"
-                Dx = D * x.unsqueeze(-1)
             case (D_batch, DN) if D_batch == batch_size and DN == N:
                 assert (
                     x.dim() == 2
                 ), f"Input signal x must be 2D when D is of shape {batch_size, N}, got {x.shape}"
                 Dx = D * x
+            case (DN, _) if DN == N:
+                assert (
+                    x.dim() == 2
+                ), f"Input signal x must be 2D when D is of shape ({N, features}), got {x.shape}"
+                Dx = D * x.unsqueeze(-1)
             case (D_batch, _) if D_batch == batch_size:
                 assert (
                     x.dim() == 2
@@ -556,10 +556,10 @@ def state_space(
                 Ch = torch.linalg.vecdot(C.unsqueeze(1).conj(), h)
             case (_, CM) if CM == M:
                 Ch = h @ C.T
-            case (CN, _, CM) if CN == N and CM == M:
-                Ch = torch.linalg.vecdot(C.conj(), h.unsqueeze(-2))
             case (C_batch, CN, CM) if C_batch == batch_size and CM == M and CN == N:
                 Ch = torch.linalg.vecdot(C.conj(), h)
+            case (CN, _, CM) if CN == N and CM == M:
+                Ch = torch.linalg.vecdot(C.conj(), h.unsqueeze(-2))
             case (C_batch, _, CM) if C_batch == batch_size and CM == M:
                 Ch = h @ C.mT
             case (C_batch, CN, _, CM) if C_batch == batch_size and CM == M and CN == N:
-- 
2.43.0


From 9e8a422502b1944f77bb443a9d9b9f26ec24fbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:01 +0000
Subject: [PATCH 03/23] fix: lti.fir with blocks shorter than the filter order,
 and order 0

The transposed form failed (or returned a wrongly shaped state) when fewer
samples than the filter order were given with zi, and returned an empty output
for order 0; the direct form returned a wrongly shaped state for order 0.
---
 philtorch/lti/filtering.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 2078bef..aaa326a 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -185,18 +185,16 @@ def fir(
             groups=B,
         ).squeeze(0)
         if zi is not None:
-            zf = y[:, -M:]
-            y = y[:, :-M]
-            y = torch.cat([zi + y[:, :M], y[:, M:]], dim=1)
-            return y, zf
-        return y[:, :-M]
+            y = y + F.pad(zi, (0, N))
+            return y[:, :N], y[:, N:]
+        return y[:, :N]
 
     if zi is None:
         zf = None
         padded_x = F.pad(x, (M, 0))
     else:
         padded_x = torch.cat([zi.flip(1), x], dim=1)
-        zf = padded_x[:, -M:].flip(1)
+        zf = padded_x[:, N:].flip(1)
 
     y = F.conv1d(
         padded_x.unsqueeze(0),
-- 
2.43.0


From bd4f9aaffb28ef6e072c3c915d2b270c7b470cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:01 +0000
Subject: [PATCH 04/23] fix: lpv.fir transposed form with short blocks and
 order 0

With zi and fewer samples than the filter order the call failed or returned a
wrongly shaped state; order 0 without zi lost all samples in diag_shift.
---
 philtorch/lpv/filtering.py | 13 ++-----------
 philtorch/lpv/utils.py     |  2 +-
 2 files changed, 3 insertions(+), 12 deletions(-)

diff --git a/philtorch/lpv/filtering.py b/philtorch/lpv/filtering.py
index 277b9c9..69f9f7a 100644
--- a/philtorch/lpv/filtering.py
+++ b/philtorch/lpv/filtering.py
@@ -64,17 +64,8 @@ def fir(
             ).unfold(1, shifted_b.size(2), 1),
         )
         if return_zf:
-            y, zf = torch.split_with_sizes(y, [T, b.size(2) - 1], 1)
-            return (
-                torch.cat(
-                    [
-                        y[..., : b.size(2) - 1] + zi,
-                        y[..., b.size(2) - 1 :],
-                    ],
-                    dim=-1,
-                ),
-                zf,
-            )
+            y = y + F.pad(zi, (0, T))
+            return y[:, :T], y[:, T:]
         return y
 
     unfolded_x = torch.cat([zi.flip(1), x], dim=1).unfold(1, b.size(2), 1)
diff --git a/philtorch/lpv/utils.py b/philtorch/lpv/utils.py
index ccbb084..b6e5e9f 100644
--- a/philtorch/lpv/utils.py
+++ b/philtorch/lpv/utils.py
@@ -29,5 +29,5 @@ def diag_shift(coef: Tensor, offset: int = 0, discard_end: bool = False) -> Tens
         .unflatten(-1, (M, T + M + offset - 1))
     )
     if discard_end:
-        y = y[..., : -(M - 1 + offset)]
+        y = y[..., :T]
     return y.mT
-- 
2.43.0


From d841da3c29cf161adaa8ecb2d28eb017adfbb953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:01 +0000
Subject: [PATCH 05/23] fix: lpv.allpole with blocks shorter than the filter
 order

The transposed form raised for fewer samples than the order, and the direct
form returned a final state with too few entries (dropping what was left of
the initial state).
---
 philtorch/lpv/filtering.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/philtorch/lpv/filtering.py b/philtorch/lpv/filtering.py
index 69f9f7a..5bb95aa 100644
--- a/philtorch/lpv/filtering.py
+++ b/philtorch/lpv/filtering.py
@@ -113,17 +113,17 @@ def allpole(
 
     if transpose:
         a = diag_shift(a.conj(), offset=1, discard_end=not return_zf)
-        x = torch.cat(
-            [zi + x[:, : a.size(2)], x[:, a.size(2) :]]
-            + ([torch.zeros_like(zi)] if return_zf else []),
-            dim=1,
-        )
+        if return_zf:
+            x = F.pad(x, (0, a.size(2))) + F.pad(zi, (0, T))
         y = sample_wise_lpc(x, a)
         if return_zf:
-            return torch.split_with_sizes(y, [T, a.size(2)], 1)
+            return y[:, :T], y[:, T:]
         return y
 
-    return sample_wise_lpc(x, a, zi=zi, return_zf=return_zf)
+    y = sample_wise_lpc(x, a, zi=zi)
+    if return_zf:
+        return y, torch.cat([zi.flip(1), y], dim=1)[:, T:].flip(1)
+    return y
 
 
 def lfilter(
-- 
2.43.0


From a950f5f5d55e6500e37d3163c4abc1baa980ef55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:01 +0000
Subject: [PATCH 06/23] fix: comb_filter final state for short blocks and delay
 1, and without the extension

- fewer samples than the delay returned a truncated final state;
- delay 1 with zi returned no final state;
- without the compiled extension the call used the compiled op and failed.
---
 philtorch/lti/filtering.py | 29 +++++++----------------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index aaa326a..9ce8c53 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -8,8 +8,7 @@ from .ssm import state_space, state_space_recursion, diag_state_space
 from ..mat import companion
 from ..utils import chain_functions
 from ..poly import polydiv
-from .recur import linear_recurrence, LTIRecurrence
-from .. import EXTENSION_LOADED
+from .recur import linear_recurrence
 
 
 def comb_filter(
@@ -33,10 +32,8 @@ def comb_filter(
             0
         ), "The first dimension of a must match the batch size of x."
 
-    if delay == 1:
-        return linear_recurrence(
-            -a, torch.zeros_like(a) if zi is None else zi.squeeze(-1), x, **kwargs
-        )
+    if zi is not None and zi.dim() == 1:
+        zi = zi.expand(x.size(0), -1)
 
     remainder = x.size(1) % delay
     if remainder != 0:
@@ -45,29 +42,17 @@ def comb_filter(
     folded_x = x.unflatten(1, (-1, delay)).mT
     if a.dim() == 1:
         a = a.repeat_interleave(delay)
-    if zi is not None:
-        return_zf = True
-        if zi.dim() == 1:
-            zi = zi.flip(0).repeat(x.size(0))
-        else:
-            zi = zi.flip(1).flatten()
-    else:
-        return_zf = False
-        zi = torch.zeros_like(a)
+    init = torch.zeros_like(a) if zi is None else zi.flip(1).flatten()
 
     y = (
-        (
-            linear_recurrence(-a, zi, folded_x.flatten(0, 1), **kwargs)
-            if EXTENSION_LOADED
-            else LTIRecurrence.apply(-a, zi, folded_x.flatten(0, 1))
-        )
+        linear_recurrence(-a, init, folded_x.flatten(0, 1), **kwargs)
         .unflatten(0, (-1, delay))
         .mT.flatten(1, 2)
     )
     if remainder != 0:
         y = y[:, : -(delay - remainder)]
-    if return_zf:
-        return y, y[:, -delay:].flip(1)
+    if zi is not None:
+        return y, torch.cat([zi.flip(1), y], dim=1)[:, -delay:].flip(1)
     return y
 
 
-- 
2.43.0


From 69ef20d824f0e23a5612991f588aad2a56aeaeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:01 +0000
Subject: [PATCH 07/23] fix: diag_state_space returns real results exactly for
 real systems

A real system without C (e.g. lfilter(form="tdf2", backend="diag_ssm"))
returned a complex output and state that the other backends reject as an
initial state, while a real C silently dropped the imaginary part of the
response to a complex input.
---
 philtorch/lti/ssm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/philtorch/lti/ssm.py b/philtorch/lti/ssm.py
index 9bccf7f..cfe7cba 100644
--- a/philtorch/lti/ssm.py
+++ b/philtorch/lti/ssm.py
@@ -729,6 +729,9 @@ def diag_state_space(
         zi = zi.unsqueeze(0).expand(batch_size, -1)
 
     x_orig = x
+    real_output = (C is not None or A is not None) and not any(
+        t is not None and t.is_complex() for t in (A, B, C, x, zi)
+    )
     if Vinv.is_complex():
         if not zi.is_complex():
             zi = zi + 0j  # Ensure zi is complex if Vinv is complex
@@ -823,7 +826,7 @@ def diag_state_space(
             dim=1,
         )
 
-    if C is not None and not C.is_complex():
+    if real_output:
         h = h.real
         zf = zf.real if return_zf else None
 
-- 
2.43.0


From e84292bda0aaef40ebd6f0451230a21683f9b6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:51 +0000
Subject: [PATCH 08/23] fix: lpv.state_space with per-batch input matrices when
 N equals M

B of shape (B, M, F) with a 3D input was taken for (B, N, M) and rejected for
blocks exactly as long as the state dimension.
---
 philtorch/lpv/ssm.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/philtorch/lpv/ssm.py b/philtorch/lpv/ssm.py
index 319202c..498638a 100644
--- a/philtorch/lpv/ssm.py
+++ b/philtorch/lpv/ssm.py
@@ -431,10 +431,9 @@ def state_space(
                 Bx = x.unsqueeze(-1) * B.unsqueeze(1)
             case (BN, BM, F) if BN == N and BM == M and F == features:
                 Bx = torch.linalg.vecdot(B.conj(), x.unsqueeze(-2))
-            case (B_batch, BN, BM) if B_batch == batch_size and BM == M and BN == N:
-                assert (
-                    x.dim() == 2
-                ), f"Input signal x must be 2D when B is of shape {batch_size, N, M}, got {x.shape}"
+            case (B_batch, BN, BM) if (
+                B_batch == batch_size and BM == M and BN == N and x.dim() == 2
+            ):
                 Bx = x.unsqueeze(-1) * B
             case (B_batch, BM, F) if (
                 B_batch == batch_size and BM == M and F == features
-- 
2.43.0


From cb0bc4e370101826a3207bf810b539efb8f1c13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:51 +0000
Subject: [PATCH 09/23] fix: polydiv can be differentiated with respect to the
 divisor

The remainder was modified in place after its entries had been saved for the
backward pass, so lfilter(backend="diag_ssm") with a long numerator raised in
backward.
---
 philtorch/poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/philtorch/poly.py b/philtorch/poly.py
index 36e3532..3a1a9ac 100644
--- a/philtorch/poly.py
+++ b/philtorch/poly.py
@@ -27,7 +27,7 @@ def polydiv(u: Tensor, v: Tensor) -> tuple[Tensor, Tensor]:
     r = u.clone()
     q = []
     for k in range(0, m - n + 1):
-        d = scale * r[..., k]
+        d = scale * r[..., k].clone()
         q.append(d)
         r[..., k : k + n + 1] -= d.unsqueeze(-1) * v
 
-- 
2.43.0


From a66ab2ab04f382b354d8ba4775daf3da9fac5ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:51 +0000
Subject: [PATCH 10/23] fix: lfiltic with a constant numerator or without a
 denominator

An order of 0 on either side asked for a negative padding and raised.
---
 philtorch/lti/filtering.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 9ce8c53..ac48e3b 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -77,8 +77,9 @@ def lfiltic(b: Tensor, a: Tensor, y: Tensor, x: Optional[Tensor] = None) -> Tens
     if x is None:
         x = b.new_zeros(m)
 
-    b_mat = F.pad(b[..., 1:], (0, m - 1), value=0.0).unfold(-1, m, 1)
-    a_mat = F.pad(a, (0, n - 1), value=0.0).unfold(-1, n, 1)
+    b_mat = F.pad(b[..., 1:], (0, max(m - 1, 0)), value=0.0).unfold(-1, m, 1)
+    a_mat = F.pad(a, (0, max(n - 1, 0)), value=0.0).unfold(-1, n, 1)
+    b_mat, a_mat = b_mat[..., :m, :], a_mat[..., :n, :]
     zi_b = (b_mat @ x.unsqueeze(-1)).squeeze(-1)
     zi_a = (a_mat @ y.unsqueeze(-1)).squeeze(-1)
     if zi_b.size(-1) < k:
-- 
2.43.0


From 5ca72ed5d72b8453ee6df8e8f5763ea4fa543864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:51 +0000
Subject: [PATCH 11/23] fix: cubic_spline(x, 1) returns a new tensor

It returned its argument itself, so writing to the result changed the input.
---
 philtorch/lti/interp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/philtorch/lti/interp.py b/philtorch/lti/interp.py
index d4b784b..70f0c82 100644
--- a/philtorch/lti/interp.py
+++ b/philtorch/lti/interp.py
@@ -117,7 +117,7 @@ def cubic_spline(x: Tensor, m: int, scipy_padding: bool = False, **kwargs) -> Te
         m, int
     ), "Interpolation factor m must be an integer >= 1."
     if m == 1:
-        return x
+        return x.clone()
 
     c = cspline(x, scipy_padding=scipy_padding, **kwargs)
 
-- 
2.43.0


From 4dac4f10c5534ab576f8b310e3f965a109c0a686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:42 +0000
Subject: [PATCH 12/23] fix: transposed time-varying forms with complex
 coefficients

fir, allpole and lfilter conjugated the coefficients in their transposed
forms, so these computed another recurrence than the direct forms.
---
 philtorch/lpv/filtering.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/philtorch/lpv/filtering.py b/philtorch/lpv/filtering.py
index 5bb95aa..c27af80 100644
--- a/philtorch/lpv/filtering.py
+++ b/philtorch/lpv/filtering.py
@@ -57,7 +57,7 @@ def fir(
     if transpose:
         shifted_b = diag_shift(b, discard_end=not return_zf)
         y = torch.linalg.vecdot(
-            shifted_b.flip(2),
+            shifted_b.flip(2).conj(),
             F.pad(
                 x,
                 (shifted_b.size(2) - 1, 0 if not return_zf else shifted_b.size(2) - 1),
@@ -112,7 +112,7 @@ def allpole(
         return_zf = True
 
     if transpose:
-        a = diag_shift(a.conj(), offset=1, discard_end=not return_zf)
+        a = diag_shift(a, offset=1, discard_end=not return_zf)
         if return_zf:
             x = F.pad(x, (0, a.size(2))) + F.pad(zi, (0, T))
         y = sample_wise_lpc(x, a)
@@ -313,10 +313,10 @@ def _ssm_lfilter(
             D = b[..., 0]
             filt = partial(
                 state_space,
-                A.mT.conj(),
-                B=B.conj(),
+                A.mT,
+                B=B,
                 C=None,
-                D=D.conj(),
+                D=D,
                 zi=zi,
                 out_idx=0,
                 **kwargs,
@@ -346,13 +346,13 @@ def _ssm_lfilter(
                         if extension_backend_indicator(x, A.size(-1))
                         else state_space_recursion
                     ),
-                    A.mT.conj(),
+                    A.mT,
                     zi,
                     out_idx=0,
                     **kwargs,
                 ),
                 partial(
-                    fir, b.conj().broadcast_to((x.size(0), -1, -1)), transpose=True
+                    fir, b.broadcast_to((x.size(0), -1, -1)), transpose=True
                 ),
             )
         case _:
-- 
2.43.0


From db7da1dacd075915ef0e9802203ed5b9c3252301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:42 +0000
Subject: [PATCH 13/23] fix: transposed time-invariant forms with complex
 coefficients

lfilter (tdf2, tdf1), fir(transpose=True) and lfilter_zi conjugated the
coefficients, partly twice, and so computed another recurrence than the
direct forms and scipy.signal.
---
 philtorch/lti/filtering.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index ac48e3b..1543574 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -113,7 +113,7 @@ def lfilter_zi(a: Tensor, b: Optional[Tensor] = None, transpose: bool = True) ->
             b = F.pad(b, (0, n - b.size(-1)), value=0.0)
         if a.size(-1) < n - 1:
             a = F.pad(a, (0, n - 1 - a.size(-1)), value=0.0)
-        A = companion(a).mT.conj()
+        A = companion(a).mT
         B = b[..., 1:] - b[..., :1] * a
     else:
         raise ValueError(
@@ -166,7 +166,7 @@ def fir(
     if transpose:
         y = F.conv_transpose1d(
             x.unsqueeze(0),
-            b.unsqueeze(1).conj(),
+            b.unsqueeze(1),
             stride=1,
             groups=B,
         ).squeeze(0)
@@ -291,10 +291,10 @@ def _ssm_lfilter(
             D = b[..., 0]
             filt = partial(
                 state_space,
-                A.mT.conj(),
-                B=B.conj(),
+                A.mT,
+                B=B,
                 C=None,
-                D=D.conj(),
+                D=D,
                 zi=zi,
                 out_idx=0,
                 **kwargs,
@@ -308,8 +308,8 @@ def _ssm_lfilter(
         case "tdf1":
             zi = x.new_zeros((x.size(0), A.size(-1)))
             filt = chain_functions(
-                partial(state_space_recursion, A.mT.conj(), zi, out_idx=0, **kwargs),
-                partial(fir, b.conj().broadcast_to((x.size(0), -1)), transpose=True),
+                partial(state_space_recursion, A.mT, zi, out_idx=0, **kwargs),
+                partial(fir, b.broadcast_to((x.size(0), -1)), transpose=True),
             )
         case _:
             raise ValueError(f"Unknown filter form: {form}")
@@ -369,10 +369,10 @@ def _diag_ssm_lfilter(
             D = b[..., 0]
             filt = partial(
                 diag_state_space,
-                A=A.mT.conj(),
-                B=B.conj(),
+                A=A.mT,
+                B=B,
                 C=None,
-                D=D.conj(),
+                D=D,
                 zi=zi,
                 out_idx=0,
                 **kwargs,
-- 
2.43.0


From 99cf7d271ef5e74ecc4ca3836473fecbcc733f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:42 +0000
Subject: [PATCH 14/23] fix: lfilter_zi(transpose=False) with a longer
 numerator

---
 philtorch/lti/filtering.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 1543574..ab34522 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -102,6 +102,8 @@ def lfilter_zi(a: Tensor, b: Optional[Tensor] = None, transpose: bool = True) ->
     assert a.dim() >= 1, "Denominator coefficients a must be at least 1D."
 
     if not transpose:
+        if b is not None and b.size(-1) > a.size(-1) + 1:
+            a = F.pad(a, (0, b.size(-1) - a.size(-1) - 1))
         n = a.size(-1) + 1
         A = companion(a)
         B = a.new_zeros(n - 1)
-- 
2.43.0


From e27564a4202fd336ec662a2287e815f2f4322741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:58 +0000
Subject: [PATCH 15/23] fix: diag_ssm delayed form with signals shorter than
 the delay

---
 philtorch/lti/filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index ab34522..5e30870 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -388,7 +388,7 @@ def _diag_ssm_lfilter(
     y = results
 
     if delay > 0:
-        y = F.pad(y[:, :-delay], (delay, 0))
+        y = F.pad(y, (delay, 0))[:, : x.size(1)]
 
     if direct_filt is not None:
         y = y + direct_filt(x)
-- 
2.43.0


From 1463c6998e3008c49cf6891f51b785bb06f8a38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:18 +0000
Subject: [PATCH 16/23] fix: filtfilt with the df1/tdf1 forms, which return no
 final state

---
 philtorch/lti/filtering.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/philtorch/lti/filtering.py b/philtorch/lti/filtering.py
index 5e30870..32eba90 100644
--- a/philtorch/lti/filtering.py
+++ b/philtorch/lti/filtering.py
@@ -457,12 +457,13 @@ def filtfilt(
         ext = x
 
     zi = lfilter_zi(a, b, transpose=(form == "tdf2"))
-    x0 = ext[..., :1]
 
-    y, _ = lfilter(b, a, ext, zi=zi * x0, form=form, **kwargs)
-    y0 = y[..., -1:]
+    def run(s: Tensor) -> Tensor:
+        y = lfilter(b, a, s, zi=zi * s[..., :1], form=form, **kwargs)
+        return y[0] if isinstance(y, tuple) else y  # df1/tdf1 return no state
 
-    y, _ = lfilter(b, a, y.flip(-1), zi=zi * y0, form=form, **kwargs)
+    y = run(ext)
+    y = run(y.flip(-1))
 
     if edge > 0:
         y = y[..., edge:-edge]
-- 
2.43.0


From 5740787f93f80e167ad52329b425b7a80a938559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:06 +0000
Subject: [PATCH 17/23] fix: differentiate the scalar recurrence twice for
 one-sample blocks

---
 philtorch/__init__.py  | 13 ++-----------
 philtorch/lti/recur.py | 13 ++-----------
 2 files changed, 4 insertions(+), 22 deletions(-)

diff --git a/philtorch/__init__.py b/philtorch/__init__.py
index 7ea621d..539d4c1 100644
--- a/philtorch/__init__.py
+++ b/philtorch/__init__.py
@@ -118,17 +118,8 @@ def _lti_recur_backward(
     a, init, out = ctx.saved_tensors
     grad_a = grad_x = grad_init = None
 
-    bp_init = grad_out[:, -1]
-    flipped_grad_x = torch.cat(
-        [
-            bp_init.unsqueeze(1),
-            torch.ops.philtorch.lti_recur(
-                a.conj_physical(),
-                bp_init,
-                grad_out[:, :-1].flip(1),
-            ),
-        ],
-        dim=1,
+    flipped_grad_x = torch.ops.philtorch.lti_recur(
+        a.conj_physical(), torch.zeros_like(init), grad_out.flip(1)
     )
 
     if ctx.needs_input_grad[1]:
diff --git a/philtorch/lti/recur.py b/philtorch/lti/recur.py
index 6ac3094..e6e3622 100644
--- a/philtorch/lti/recur.py
+++ b/philtorch/lti/recur.py
@@ -29,17 +29,8 @@ class LTIRecurrence(Function):
         a, init, out = ctx.saved_tensors
         grad_a = grad_x = grad_init = None
 
-        bp_init = grad_out[:, -1]
-        flipped_grad_x = torch.cat(
-            [
-                bp_init.unsqueeze(1),
-                LTIRecurrence.apply(
-                    a.conj_physical(),
-                    bp_init,
-                    grad_out[:, :-1].flip(1),
-                ),
-            ],
-            dim=1,
+        flipped_grad_x = LTIRecurrence.apply(
+            a.conj_physical(), torch.zeros_like(init), grad_out.flip(1)
         )
 
         if ctx.needs_input_grad[1]:
-- 
2.43.0


From 9042d068ee8becefe2a901d40a2d9111c8d64313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:05 +0000
Subject: [PATCH 18/23] fix: non-finite matrices do not reach LAPACK in
 diag_state_space

---
 philtorch/lti/ssm.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/philtorch/lti/ssm.py b/philtorch/lti/ssm.py
index cfe7cba..c582ddf 100644
--- a/philtorch/lti/ssm.py
+++ b/philtorch/lti/ssm.py
@@ -652,7 +652,11 @@ def diag_state_space(
             assert x.size(0) == A.size(
                 0
             ), f"Batch size of A must match batch size of x, got A: {A.size(0)}, x: {x.size(0)}"
-        L = torch.linalg.eigvals(A)
+        # LAPACK is undefined (it may crash) for non-finite matrices; the other
+        # matrices of the batch must not be affected by them
+        finite = A.isfinite().all(-1).all(-1, keepdim=True)
+        L = torch.linalg.eigvals(torch.where(finite.unsqueeze(-1), A, 0.0))
+        L = torch.where(finite, L, torch.nan)
         V = Vinv = None
         M = A.size(-1)
     else:
-- 
2.43.0


From bd60ad9507b43140813f430d6bb47cdd16fc0c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:45 +0000
Subject: [PATCH 19/23] fix: import when an optional accelerator fails to load
 with an error other than ImportError

---
 philtorch/__init__.py | 4 ++--
 philtorch/lpv/ssm.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/philtorch/__init__.py b/philtorch/__init__.py
index 539d4c1..4da3a5f 100644
--- a/philtorch/__init__.py
+++ b/philtorch/__init__.py
@@ -7,7 +7,7 @@ try:
     from . import _C
 
     EXTENSION_LOADED = True
-except ImportError:
+except Exception:
     EXTENSION_LOADED = False
     warnings.warn("Custom extension not loaded.")
 
@@ -19,7 +19,7 @@ try:
         lpv_recursion_loop,
         lpv_shared_A_recursion_loop,
     )
-except ImportError:
+except Exception:
     HELION_LOADED = False
     warnings.warn(
         "Helion kernels not loaded. Please ensure Helion is installed and compatible with your PyTorch version."
diff --git a/philtorch/lpv/ssm.py b/philtorch/lpv/ssm.py
index 498638a..6cf45a6 100644
--- a/philtorch/lpv/ssm.py
+++ b/philtorch/lpv/ssm.py
@@ -9,7 +9,7 @@ try:
     import pararnn.parallel_reduction.parallel_reduction
 
     PARARNN_AVAILABLE = True
-except ImportError:
+except Exception:
     PARARNN_AVAILABLE = False
 
 from ..mat import matrices_cumdot
-- 
2.43.0


From 0b47770e6a31e8addf72039025c7a14d9a59fe2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:49 +0000
Subject: [PATCH 20/23] fix: cascaded cspline of a single-sample signal without
 the extension and its gradient

---
 philtorch/lti/interp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/philtorch/lti/interp.py b/philtorch/lti/interp.py
index 70f0c82..4fae361 100644
--- a/philtorch/lti/interp.py
+++ b/philtorch/lti/interp.py
@@ -11,6 +11,8 @@ def _first_order_filt(
     x: Tensor, a: Tensor, zi: Tensor, b: Optional[Tensor] = None, **kwargs
 ) -> Tensor:
     xb = x if b is None else x * b
+    if xb.shape[-1] == 0:
+        return xb
     if EXTENSION_LOADED:
         y = LTIRecurrence.apply(
             a.broadcast_to(x.shape[0]), zi.broadcast_to(x.shape[0]), xb
-- 
2.43.0


From edb106daaf6e8ac82ea7ce9a37b4f53b8745cbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:45 +0000
Subject: [PATCH 21/23] fix: lti state-space functions with a shared square
 input matrix when the batch size equals the state size

B of shape (M, F) with F == M was taken for one vector per stream, and
rejected because the signal has features, whenever the batch had M streams.
---
 philtorch/lti/ssm.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/philtorch/lti/ssm.py b/philtorch/lti/ssm.py
index c582ddf..7029b8e 100644
--- a/philtorch/lti/ssm.py
+++ b/philtorch/lti/ssm.py
@@ -464,13 +464,13 @@ def state_space(
                     x.dim() == 2
                 ), f"Input signal x must be 2D when B is of shape {M,}, got {x.shape}"
                 Bx = x.unsqueeze(-1) * B
+            case (BM, F) if BM == M and F == features:
+                Bx = x @ B.T
             case (B_batch, BM) if B_batch == batch_size and BM == M:
                 assert (
                     x.dim() == 2
                 ), f"Input signal x must be 2D when B is of shape {batch_size, M}, got {x.shape}"
                 Bx = x.unsqueeze(-1) * B.unsqueeze(1)
-            case (BM, F) if BM == M and F == features:
-                Bx = x @ B.T
             case (B_batch, BM, F) if (
                 B_batch == batch_size and BM == M and F == features
             ):
@@ -767,6 +767,9 @@ def diag_state_space(
                 if VinvB.dim() == 2:
                     VinvB = VinvB.unsqueeze(1)
                 VinvBx = x.unsqueeze(-1) * VinvB
+            case (BM, F) if BM == M and F == features:
+                VinvB = Vinv @ B
+                VinvBx = x @ VinvB.mT
             case (B_batch, BM) if B_batch == batch_size and BM == M:
                 assert (
                     x.dim() == 2
@@ -777,9 +780,6 @@ def diag_state_space(
                     else torch.linalg.vecdot(Vinv.conj(), B.unsqueeze(1))
                 )
                 VinvBx = x.unsqueeze(-1) * VinvB.unsqueeze(1)
-            case (BM, F) if BM == M and F == features:
-                VinvB = Vinv @ B
-                VinvBx = x @ VinvB.mT
             case (B_batch, BM, F) if (
                 B_batch == batch_size and BM == M and F == features
             ):
-- 
2.43.0


From a93a255029e52548dbba2db270f6a85139486d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:45 +0000
Subject: [PATCH 22/23] fix: state_space with a one-element D for single-sample
 blocks or single streams

D of shape (1,) is documented as a scalar; with a signal that has features
it was taken for one value per step or per stream, and rejected, when the
block length or the batch size is one.
---
 philtorch/lpv/ssm.py | 4 ++--
 philtorch/lti/ssm.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/philtorch/lpv/ssm.py b/philtorch/lpv/ssm.py
index 6cf45a6..a7a1e96 100644
--- a/philtorch/lpv/ssm.py
+++ b/philtorch/lpv/ssm.py
@@ -480,6 +480,8 @@ def state_space(
         match D.shape:
             case (F,) if F == features:
                 Dx = x @ D
+            case (1,) | ():
+                Dx = x * D
             case (DN,) if DN == N:
                 assert (
                     x.dim() == 2
@@ -490,8 +492,6 @@ def state_space(
                     x.dim() == 2
                 ), f"Input signal x must be 2D when D is of shape {batch_size,}, got {x.shape}"
                 Dx = D.unsqueeze(1) * x
-            case (1,) | ():
-                Dx = x * D
             case (_,):
                 assert (
                     x.dim() == 2
diff --git a/philtorch/lti/ssm.py b/philtorch/lti/ssm.py
index 7029b8e..ffd8443 100644
--- a/philtorch/lti/ssm.py
+++ b/philtorch/lti/ssm.py
@@ -535,13 +535,13 @@ def _ssm_C_D(h, x, C, D, batch_size, M):
         match D.shape:
             case (F,) if F == features:
                 Dx = x @ D
+            case (1,) | ():
+                Dx = x * D
             case (D_batch,) if D_batch == batch_size:
                 assert (
                     x.dim() == 2
                 ), f"Input signal x must be 2D when D is of shape {batch_size,}, got {x.shape}"
                 Dx = D.unsqueeze(1) * x
-            case (1,) | ():
-                Dx = x * D
             case (_,):
                 assert (
                     x.dim() == 2
-- 
2.43.0


From c2441d7258f9b15cec7c0ecb9a19a7396e5ba59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:23 +0000
Subject: [PATCH 23/23] fix: NaN gradients of unrolled linear_recurrence when
 powers of the coefficient are subnormal

The backward pass of torch.cumprod divides by its input. In the recursion of
the unrolled form the input is itself a high power of the coefficient, and
dividing by a subnormal (complex) number gave NaN gradients for quickly
decaying recurrences, and for nothing more than a long enough signal in
single precision.
---
 philtorch/lpv/recur.py |  8 +++++++-
 philtorch/lti/recur.py | 12 ++++++------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/philtorch/lpv/recur.py b/philtorch/lpv/recur.py
index 1dc9fcd..37840bf 100644
--- a/philtorch/lpv/recur.py
+++ b/philtorch/lpv/recur.py
@@ -2,6 +2,8 @@ import torch
 from torch import Tensor
 from torch.nn import functional as F
 from typing import Optional
+from itertools import accumulate
+from operator import mul
 
 
 def _scalar_recursion_loop(
@@ -75,7 +77,11 @@ def linear_recurrence(
     unrolled_x = x.unflatten(1, (-1, block_size))
     unrolled_a = a.unflatten(-1, (-1, block_size))
 
-    a_powers = torch.cumprod(unrolled_a[..., 1:].flip(-1), dim=-1).flip(-1)
+    # the gradient of torch.cumprod divides by its input, which is NaN when the
+    # products of a decaying recurrence become subnormal numbers
+    a_powers = torch.stack(
+        list(accumulate(unrolled_a[..., 1:].flip(-1).unbind(-1), mul)), dim=-1
+    ).flip(-1)
     a_powered = a_powers[..., 0] * unrolled_a[..., 0]
     a_powers_plus_I = F.pad(a_powers, (0, 1), value=1.0)
 
diff --git a/philtorch/lti/recur.py b/philtorch/lti/recur.py
index e6e3622..44fb329 100644
--- a/philtorch/lti/recur.py
+++ b/philtorch/lti/recur.py
@@ -3,6 +3,8 @@ from torch import Tensor
 from torch.autograd import Function
 from torch.nn import functional as F
 from typing import Optional, Any
+from itertools import accumulate
+from operator import mul
 
 
 class LTIRecurrence(Function):
@@ -140,12 +142,10 @@ def linear_recurrence(
 
     unrolled_x = x.unflatten(1, (-1, block_size))
 
-    a_powers = torch.cumprod(
-        (
-            a.expand(block_size)
-            if a.numel() == 1
-            else a.unsqueeze(1).expand(-1, block_size)
-        ),
+    # the gradient of torch.cumprod divides by its input, which is NaN when the
+    # powers of a decaying recurrence become subnormal numbers
+    a_powers = torch.stack(
+        list(accumulate([a.squeeze(0) if a.numel() == 1 else a] * block_size, mul)),
         dim=-1,
     )
     a_powered = a_powers[..., -1]
-- 
2.43.0

