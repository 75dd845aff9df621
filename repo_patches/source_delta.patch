From 618337a01b783d753eca2c660920e7691bc71956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:50 +0000
Subject: [PATCH 01/49] fix: look up degenerate domains by domain, not by the
 rank a domain is assigned to

gridnd_fill mapped the domain to its rank before testing
domain_is_degenerate, which is indexed by domain. With degenerate edges and
an assignment that is not the identity particles were lost, or sent to
domains of no volume.
---
 pmesh/_domain.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/_domain.pyx b/pmesh/_domain.pyx
index cd54a08..b24a0e3 100644
--- a/pmesh/_domain.pyx
+++ b/pmesh/_domain.pyx
@@ -78,9 +78,9 @@ def gridnd_fill(
                     while t < 0:
                         t += dims[j]
                 target = target + t * strides[j]
-            target = DomainAssign[target]
 
             if not domain_is_degenerate[target]:
+                target = DomainAssign[target]
                 # build a sorted target_list
                 # bubble sort (for patch_size is small)
                 target_list[k] = target
-- 
2.43.0


From 7908bc8df7ec8ca165fa0560adda781498c2a59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:02 +0000
Subject: [PATCH 02/49] fix: deliver particles with wide smoothing to every
 domain in a periodic decomposition

The reach of a particle to the left and to the right was computed modulo the
number of domains, so a smoothing that reaches around the box lost
domains: with two domains and a smoothing of the box size the particle
stayed in its own domain only.
---
 pmesh/domain.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index 8768aac..a7d1104 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -614,12 +614,15 @@ class GridND(object):
                     if periodic:
                         boxsize = self.edges[j][-1]
                         c = tmp % boxsize
-                        l = self._digitize((c - smoothing[j]) % boxsize, self.edges[j], right=False)
-                        r = self._digitize((c + smoothing[j]) % boxsize, self.edges[j], right=False)
-                        p = self._digitize(c, self.edges[j], right=False)
-                        l = p - (p - l) % self.shape[j] - 1
-                        r = p + (r - p) % self.shape[j]
-                        #print(l, p, r)
+                        # indices of the images of the domains, without wrapping
+                        nl, l = numpy.divmod(c - smoothing[j], boxsize)
+                        nr, r = numpy.divmod(c + smoothing[j], boxsize)
+                        l = self._digitize(l, self.edges[j], right=False) + self.shape[j] * nl - 1
+                        r = self._digitize(r, self.edges[j], right=False) + self.shape[j] * nr
+                        # reaching around the box: each domain once.
+                        full = r - l >= self.shape[j]
+                        l = numpy.where(full, 0, l)
+                        r = numpy.where(full, self.shape[j], r)
                         sil[j, s] = l
                         sir[j, s] = r
                     else:
-- 
2.43.0


From 7c65c4b9d1a8f7d64ecf8d833b834efc241606a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:25 +0000
Subject: [PATCH 03/49] fix: assign domains by the position of the rank on the
 process mesh

On a rank that holds no cells local_i_start is 0, so several ranks claimed
the domain of the first rank and others were assigned to nobody
(DomainAssign uninitialised), e.g. Nmesh [4, 6, 5] on [3, 2] processes.
---
 pmesh/pm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 1ebc8c7..2a5b1f9 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -1449,7 +1449,8 @@ class ParticleMesh(object):
         edges = partition.i_edges
         shape = numpy.array([len(g) - 1 for g in edges], dtype='int32')
         size = numpy.prod(shape)
-        ilocal = tuple(numpy.flatnonzero(iedges == istart)[0] for istart, iedges in zip(partition.local_i_start, partition.i_edges))
+        # local_i_start is 0 on ranks that hold no cells, thus use the position on the process mesh.
+        ilocal = tuple(procmesh.this) + (0,) * (len(edges) - len(procmesh.this))
         ilocal = numpy.ravel_multi_index(ilocal, shape, mode='raise', order='C')
         ilocals = numpy.array(self.comm.allgather(ilocal))
         DomainAssign = numpy.empty(size, dtype='int32')
-- 
2.43.0


From 9c984e880b0ed95528ec660333d45be2dbe620cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:02 +0000
Subject: [PATCH 04/49] fix: send the rows of arrays that are not in C order

Layout.gather passed Fortran ordered data on to Alltoallv, which moves the
memory as it lies: the rows were mixed up silently.
---
 pmesh/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index a7d1104..55376c8 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -50,7 +50,7 @@ def bincountv(x, weights, minlength=None, dtype=None, out=None):
 def promote(data, comm):
     data = numpy.asarray(data)
     dtype_root = comm.bcast(data.dtype)
-    data = data.astype(dtype_root)
+    data = data.astype(dtype_root, order='C')
     shape_root = comm.bcast(data.shape)
     if shape_root[1:] != data.shape[1:]:
         raise ValueError('the shape of the data does not match across ranks.')
-- 
2.43.0


From 1557e703b4e221e582dad97aff3a0b4d4242f2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:02 +0000
Subject: [PATCH 05/49] fix: raise on every rank if the data does not match the
 layout on any

The shape was compared with that of the root on each rank alone, and the
lengths of columns by pack_arrays on each rank alone: the ranks that raised
left the others in the next collective. Packed columns escaped the
comparison of shapes as it did not look into the fields.
---
 pmesh/domain.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index 55376c8..11201ff 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -50,12 +50,19 @@ def bincountv(x, weights, minlength=None, dtype=None, out=None):
 def promote(data, comm):
     data = numpy.asarray(data)
     dtype_root = comm.bcast(data.dtype)
-    data = data.astype(dtype_root, order='C')
     shape_root = comm.bcast(data.shape)
-    if shape_root[1:] != data.shape[1:]:
+    match = shape_root[1:] == data.shape[1:] and _field_shapes(dtype_root) == _field_shapes(data.dtype)
+    # all ranks raise, or the others wait forever.
+    if not all(comm.allgather(match)):
         raise ValueError('the shape of the data does not match across ranks.')
+    data = data.astype(dtype_root, order='C')
     return data
 
+def _field_shapes(dtype):
+    if dtype.names is None:
+        return dtype.shape
+    return [_field_shapes(dtype[name]) for name in dtype.names]
+
 def pack_arrays(seq):
     """
     Pack a sequence of arrays to a structured array by copying the data.
@@ -158,6 +165,10 @@ class Layout(object):
             Refer to :py:meth:`gather` for collecting data of ghosts.
 
         """
+        if any(self.comm.allgather(any(len(arg) != self.sendlength for arg in args))):
+            raise ValueError(
+            'the length of data does not match that used to build the layout')
+
         if pack:
             data = pack_arrays(args)
             newdata = self._exchange(data)
-- 
2.43.0


From 2ae9c9849a3b8ed2523afe602186eaf3d137ea60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:02 +0000
Subject: [PATCH 06/49] fix: gather with a ufunc if some particles were
 delivered to no rank

reduceat returns a neighbouring item for an empty slice, and raises
IndexError for an empty slice at the end.
---
 pmesh/domain.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index 11201ff..c03526a 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -311,7 +311,13 @@ class Layout(object):
             N = numpy.bincount(self.indices, minlength=self.sendlength)
             offset = numpy.zeros(self.sendlength, 'intp')
             offset[1:] = numpy.cumsum(N)[:-1]
-            return mode.reduceat(recvbuffer, offset, out=out)
+            if out is None:
+                out = numpy.empty(self.sendlength, dtype=dtype)
+            # reduceat does not do empty slices; those are particles delivered to no rank.
+            out[N == 0] = 0 if mode.identity is None else mode.identity
+            if len(recvbuffer) > 0:
+                out[N > 0] = mode.reduceat(recvbuffer, offset[N > 0])
+            return out
 
         if mode == 'mean':
             N = numpy.bincount(self.indices, minlength=self.sendlength)
-- 
2.43.0


From 704e998fc93b4f40ad939e69290d9af8d1087613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:25 +0000
Subject: [PATCH 07/49] fix: load and isprimary at tiny negative coordinates of
 a periodic box

numpy.remainder(-1e-20, L) is L, which lies in no domain: load raised
ValueError, and no rank called the position primary although decompose
delivers it.
---
 pmesh/domain.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index c03526a..972c16b 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -459,6 +459,8 @@ class GridND(object):
                 for j in range(self.ndim):
                     if periodic:
                         tmp = numpy.remainder(chunk[:, j], self.edges[j][-1])
+                        # a tiny negative coordinate is rounded to the box size
+                        tmp[tmp == self.edges[j][-1]] = 0
                     else:
                         tmp = chunk[:, j]
                     sil[j, s] = self._digitize(tmp, self.edges[j]) - 1
@@ -570,6 +572,8 @@ class GridND(object):
             chunk = transform(pos[s])[..., :self.ndim]
             if self.periodic:
                 chunk = numpy.remainder(chunk,  BoxSize)
+                # a tiny negative coordinate is rounded to the box size
+                chunk[chunk == BoxSize] = 0
             # looping over all primary regions.
             for j in range(len(x0)):
                 r[s] += ((chunk >= x0[j]) & (chunk < x1[j])).all(axis=-1)
-- 
2.43.0


From 4f72e9a61a62c63b4d7f576a5db09eddb657f2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:59 +0000
Subject: [PATCH 08/49] fix: use the tuned windows only where the window is not
 scaled

window->support is rounded up, such that with e.g. hsml=0.75 the tuned CIC
was taken for a support of 1.5 and hsml was ignored.
---
 pmesh/_window_tuned_cic.h | 2 ++
 pmesh/_window_tuned_nnb.h | 2 ++
 pmesh/_window_tuned_pcs.h | 2 ++
 pmesh/_window_tuned_tsc.h | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/pmesh/_window_tuned_cic.h b/pmesh/_window_tuned_cic.h
index de10378..327195e 100644
--- a/pmesh/_window_tuned_cic.h
+++ b/pmesh/_window_tuned_cic.h
@@ -136,6 +136,8 @@ static int
 mkname(_getfastmethod_cic) (PMeshPainter * painter, PMeshWindowInfo * window, paintfunc * fastpaint, readoutfunc * fastreadout)
 {
     if(window->support != 2) return 0;
+    /* a fractional support is rounded up */
+    if(window->vfactor != 1.0) return 0;
 
     if(painter->ndim == 1) {
         *fastpaint = mkname(_cic_tuned_paint1); \
diff --git a/pmesh/_window_tuned_nnb.h b/pmesh/_window_tuned_nnb.h
index 8b3522e..561fa91 100644
--- a/pmesh/_window_tuned_nnb.h
+++ b/pmesh/_window_tuned_nnb.h
@@ -104,6 +104,8 @@ static int
 mkname(_getfastmethod_nnb) (PMeshPainter * painter, PMeshWindowInfo * window, paintfunc * fastpaint, readoutfunc * fastreadout)
 {
     if(window->support != 1) return 0;
+    /* a fractional support is rounded up */
+    if(window->vfactor != 1.0) return 0;
 
     if(painter->ndim == 1) {
         *fastpaint = mkname(_nnb_tuned_paint1); \
diff --git a/pmesh/_window_tuned_pcs.h b/pmesh/_window_tuned_pcs.h
index eb92dca..296bb79 100644
--- a/pmesh/_window_tuned_pcs.h
+++ b/pmesh/_window_tuned_pcs.h
@@ -300,6 +300,8 @@ static int
 mkname(_getfastmethod_pcs) (PMeshPainter * painter, PMeshWindowInfo * window, paintfunc * fastpaint, readoutfunc * fastreadout)
 {
     if(window->support != 4) return 0;
+    /* a fractional support is rounded up */
+    if(window->vfactor != 1.0) return 0;
 
     if(painter->ndim == 1) {
         *fastpaint = mkname(_pcs_tuned_paint1); \
diff --git a/pmesh/_window_tuned_tsc.h b/pmesh/_window_tuned_tsc.h
index f70731b..ce55f57 100644
--- a/pmesh/_window_tuned_tsc.h
+++ b/pmesh/_window_tuned_tsc.h
@@ -189,6 +189,8 @@ static int
 mkname(_getfastmethod_tsc) (PMeshPainter * painter, PMeshWindowInfo * window, paintfunc * fastpaint, readoutfunc * fastreadout)
 {
     if(window->support != 3) return 0;
+    /* a fractional support is rounded up */
+    if(window->vfactor != 1.0) return 0;
 
     if(painter->ndim == 1) {
         *fastpaint = mkname(_tsc_tuned_paint1); \
-- 
2.43.0


From d881399a07ec2c05eb5e39b7273f5f37625ba5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:48 +0000
Subject: [PATCH 09/49] fix: scale the gradient of the tuned PCS window to
 position units

As the other windows do: the gradient was in grid units.
---
 pmesh/_window_tuned_pcs.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pmesh/_window_tuned_pcs.h b/pmesh/_window_tuned_pcs.h
index 296bb79..e412e4a 100644
--- a/pmesh/_window_tuned_pcs.h
+++ b/pmesh/_window_tuned_pcs.h
@@ -28,12 +28,12 @@
                               * (2 + (XYZ[d] - IJK3[d])) \
                               * (2 + (XYZ[d] - IJK3[d])); \
         } else { \
-            V1[d] = + 1.0 / 6.0 * (- 12 * (XYZ[d] - IJK1[d]) \
+            V1[d] = painter->scale[d] / 6.0 * (- 12 * (XYZ[d] - IJK1[d]) \
                                    + 9 * (XYZ[d] - IJK1[d]) * (XYZ[d] - IJK1[d])); \
-            V2[d] = - 1.0 / 6.0 * (+ 12 * (XYZ[d] - IJK2[d]) \
+            V2[d] = - painter->scale[d] / 6.0 * (+ 12 * (XYZ[d] - IJK2[d]) \
                                    + 9 * (XYZ[d] - IJK2[d]) * (XYZ[d] - IJK2[d])); \
-            V0[d] = - 1.0 / 2.0 * (2 - (XYZ[d] - IJK0[d])) * (2 - (XYZ[d] - IJK0[d])); \
-            V3[d] = + 1.0 / 2.0 * (2 + (XYZ[d] - IJK3[d])) * (2 + (XYZ[d] - IJK3[d])); \
+            V0[d] = - painter->scale[d] / 2.0 * (2 - (XYZ[d] - IJK0[d])) * (2 - (XYZ[d] - IJK0[d])); \
+            V3[d] = painter->scale[d] / 2.0 * (2 + (XYZ[d] - IJK3[d])) * (2 + (XYZ[d] - IJK3[d])); \
         } \
     } \
 \
-- 
2.43.0


From 054b3c08917306078e05c0d883c7e759649a0769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:19 +0000
Subject: [PATCH 10/49] fix: refuse to paint to and read from arrays that are
 neither f4 nor f8

---
 pmesh/_window.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmesh/_window.pyx b/pmesh/_window.pyx
index 0435992..ff0d15f 100644
--- a/pmesh/_window.pyx
+++ b/pmesh/_window.pyx
@@ -132,7 +132,7 @@ cdef class ResampleWindow(object):
         cdef int d
         cdef int i
 
-        assert real.dtype.kind == 'f'
+        assert real.dtype == 'f4' or real.dtype == 'f8'
 
         cdef PMeshPainter painter[1]
 
@@ -173,7 +173,7 @@ cdef class ResampleWindow(object):
         cdef int d
         cdef int i
 
-        assert real.dtype.kind == 'f'
+        assert real.dtype == 'f4' or real.dtype == 'f8'
 
         cdef PMeshPainter painter[1]
 
-- 
2.43.0


From cc8cec1b92cad04331ec3f53080247905af8f00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:47 +0000
Subject: [PATCH 11/49] fix: no mode has an index if the maximum length is zero

---
 pmesh/_invariant_imp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/_invariant_imp.c b/pmesh/_invariant_imp.c
index af08965..3eaa31c 100644
--- a/pmesh/_invariant_imp.c
+++ b/pmesh/_invariant_imp.c
@@ -67,7 +67,7 @@ ptrdiff_t pmesh_get_invariant_index(
 
     ptrdiff_t shell = absmax(ndim, x);
     /* (0, 0, 0....) */
-    if (shell == 0) return 0;
+    if (shell == 0) return max_length == 0 ? -1 : 0;
 
     ptrdiff_t side = shell * 2 + 1; 
 
-- 
2.43.0


From 642b3f8f0d87c75d254cebdb02abac701acfba5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:28 +0000
Subject: [PATCH 12/49] fix: white noise of a part of the full mesh that starts
 beyond the middle of the last axis

---
 pmesh/_whitenoise_generics.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pmesh/_whitenoise_generics.h b/pmesh/_whitenoise_generics.h
index 8e3eac1..4f9d36a 100644
--- a/pmesh/_whitenoise_generics.h
+++ b/pmesh/_whitenoise_generics.h
@@ -162,7 +162,7 @@ mkname(_generic_fill)(PMeshWhiteNoiseGenerator * self, void * delta_k, int seed)
                         SAMPLE(this_rng, &ampl, &phase);
                     }
 
-                    ptrdiff_t iabs[3] = {i, j, k};
+                    ptrdiff_t iabs[3] = {i, j, sign == -1 ? self->Nmesh[2] - k : k};
 
                     /* mode is not there, skip it */
                     if(!mkname(_has_mode)(self, iabs)) {
@@ -193,7 +193,6 @@ mkname(_generic_fill)(PMeshWhiteNoiseGenerator * self, void * delta_k, int seed)
                     */
 
                     if(sign == -1) {
-                        iabs[2] = self->Nmesh[2] - k;
                         im = - im;
                     }
 
-- 
2.43.0


From a7066e27bba20eb4354bb3c986e5edeaad0a8d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:51 +0000
Subject: [PATCH 13/49] fix: seed every line of meshes that are not cubic or of
 odd size in white noise

---
 pmesh/_whitenoise_generics.h | 21 +++++++++++----------
 pmesh/_whitenoise_imp.c      | 11 ++++++++++-
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/pmesh/_whitenoise_generics.h b/pmesh/_whitenoise_generics.h
index 4f9d36a..95c3720 100644
--- a/pmesh/_whitenoise_generics.h
+++ b/pmesh/_whitenoise_generics.h
@@ -73,23 +73,24 @@ mkname(_generic_fill)(PMeshWhiteNoiseGenerator * self, void * delta_k, int seed)
     gsl_rng * rng = gsl_rng_alloc(gsl_rng_ranlxd1);
     gsl_rng_set(rng, seed);
 
-    for(i = 0; i < self->Nmesh[0] / 2; i++) {
+    ptrdiff_t nmax = self->Nmesh[0] > self->Nmesh[1] ? self->Nmesh[0] : self->Nmesh[1];
+    for(i = 0; i < (nmax + 1) / 2; i++) {
         for(j = 0; j < i; j++)
-            SETSEED(self, i, j, rng);
+            SETSEED(self, i, j, 0, 0, rng);
         for(j = 0; j < i + 1; j++)
-            SETSEED(self, j, i, rng);
+            SETSEED(self, j, i, 0, 0, rng);
         for(j = 0; j < i; j++)
-            SETSEED(self, self->Nmesh[0] - 1 - i, j, rng);
+            SETSEED(self, i, j, 1, 0, rng);
         for(j = 0; j < i + 1; j++)
-            SETSEED(self, self->Nmesh[1] - 1 - j, i, rng);
+            SETSEED(self, j, i, 1, 0, rng);
         for(j = 0; j < i; j++)
-            SETSEED(self, i, self->Nmesh[1] - 1 - j, rng);
+            SETSEED(self, i, j, 0, 1, rng);
         for(j = 0; j < i + 1; j++)
-            SETSEED(self, j, self->Nmesh[0] - 1 - i, rng);
+            SETSEED(self, j, i, 0, 1, rng);
         for(j = 0; j < i; j++)
-            SETSEED(self, self->Nmesh[0] - 1 - i, self->Nmesh[1] - 1 - j, rng);
+            SETSEED(self, i, j, 1, 1, rng);
         for(j = 0; j < i + 1; j++)
-            SETSEED(self, self->Nmesh[1] - 1 - j, self->Nmesh[0] - 1 - i, rng);
+            SETSEED(self, j, i, 1, 1, rng);
     }
     gsl_rng_free(rng);
 
@@ -149,7 +150,7 @@ mkname(_generic_fill)(PMeshWhiteNoiseGenerator * self, void * delta_k, int seed)
                 gsl_rng_set(this_rng, seed_this);
 
                 for(k = 0; k <= self->Nmesh[2] / 2; k ++) {
-                    int use_conj = (d1 != 0 || d2 != 0) && (k == 0 || k == self->Nmesh[2] / 2);
+                    int use_conj = (d1 != 0 || d2 != 0) && (k == 0 || 2 * k == self->Nmesh[2]);
 
                     double ampl, phase;
                     if(use_conj) {
diff --git a/pmesh/_whitenoise_imp.c b/pmesh/_whitenoise_imp.c
index c47324b..d3d8010 100644
--- a/pmesh/_whitenoise_imp.c
+++ b/pmesh/_whitenoise_imp.c
@@ -26,11 +26,20 @@ SAMPLE(gsl_rng * rng, double * ampl, double * phase)
 }
 
 
+/* set the seed of the line i, j counted from the lower (ni, nj == 0) or the upper (1) end of the axes. */
 static inline void 
-SETSEED(PMeshWhiteNoiseGenerator * self, int i, int j, gsl_rng * rng) 
+SETSEED(PMeshWhiteNoiseGenerator * self, int i, int j, int ni, int nj, gsl_rng * rng) 
 { 
     unsigned int seed = 0x7fffffff * gsl_rng_uniform(rng); 
 
+    /* no such line on this mesh: an axis may be shorter than the other.
+     * if the size is odd the lower end has one more than the upper. */
+    if(i >= (self->Nmesh[0] + !ni) / 2 || j >= (self->Nmesh[1] + !nj) / 2)
+        return;
+
+    if(ni) i = self->Nmesh[0] - 1 - i;
+    if(nj) j = self->Nmesh[1] - 1 - j;
+
     int ii[2] = {i, (self->Nmesh[0] - i) % self->Nmesh[0]};
     int jj[2] = {j, (self->Nmesh[1] - j) % self->Nmesh[1]};
     int d1, d2;
-- 
2.43.0


From c2d47bdfa4c9c298a3b1e4829206b6a6a12de1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:08 +0000
Subject: [PATCH 14/49] fix: iterate over the slab of a one dimensional field

---
 pmesh/pm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 2a5b1f9..8f94fec 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -87,8 +87,8 @@ class slab(numpy.ndarray):
 class slabiter(object):
     def __init__(self, field, value):
         # we iterate over the slowest axis to gain locality.
-        if field.ndim == 2:
-            axis = 2
+        if field.ndim <= 2:
+            axis = field.ndim
             self.optimized_view = value[None, ...]
             self.nslabs = 1
             self.optx = [xx[None, ...] for xx in field.x]
-- 
2.43.0


From 9d01b511c0d3a04b73666534e6d1082b4e47d933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:00 +0000
Subject: [PATCH 15/49] fix: coordinates of meshes of odd size lie in the
 symmetric range

---
 pmesh/pm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 8f94fec..89470d8 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -1188,7 +1188,7 @@ def _init_i_coords(partition, Nmesh, BoxSize, dtype):
 
         ri = numpy.arange(t[d], dtype=dtype) + partition.local_i_start[d]
 
-        ri[ri >= Nmesh[d] // 2] -= Nmesh[d]
+        ri[ri >= (Nmesh[d] + 1) // 2] -= Nmesh[d]
 
         xi = ri * BoxSize[d] / Nmesh[d]
 
@@ -1212,7 +1212,7 @@ def _init_o_coords(partition, Nmesh, BoxSize, dtype):
 
         wi = numpy.arange(s[d], dtype=dtype) + partition.local_o_start[d]
 
-        wi[wi >= Nmesh[d] // 2] -= Nmesh[d]
+        wi[wi >= (Nmesh[d] + 1) // 2] -= Nmesh[d]
 
         wi *= (2 * numpy.pi / Nmesh[d])
         ki = wi * Nmesh[d] / BoxSize[d]
-- 
2.43.0


From 05dbf7fb3044f7922081c6b1b026883e69e50453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:47 +0000
Subject: [PATCH 16/49] fix: resampling of modes next to the Nyquist frequency,
 of odd sizes, and to untransposed fields

---
 pmesh/pm.py | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 89470d8..a3467b8 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -488,10 +488,6 @@ class Field(NDArrayLike):
         """
         assert isinstance(out, Field)
 
-        if all(out.Nmesh == self.Nmesh):
-            # no resampling needed. Just do Fourier transforms.
-            self.cast(type=_gettype(out), out=out)
-
         self = self.cast(type=TransposedComplexField)
 
         complex = out.pm.create(type=TransposedComplexField, base=out._base, value=0)
@@ -520,29 +516,32 @@ class Field(NDArrayLike):
         # fill in the value
         complex[mask] = data
 
-        # ensure the down sample is real
         for i, slab in zip(complex.slabs.i, complex.slabs):
-            mask = functools.reduce(numpy.bitwise_and,
-                 [(n - ii) % n == ii
-                    for ii, n in zip(i, complex.Nmesh)])
-            slab.imag[mask] = 0
-
-            # remove the nyquist of the output
+            # ensure the down sample is real
+            if self.dtype != self.pm.dtype:
+                mask = functools.reduce(numpy.bitwise_and,
+                     [(n - ii) % n == ii
+                        for ii, n in zip(i, complex.Nmesh)])
+                slab.imag[mask] = 0
+
+            # remove the nyquist of the output; meshes of odd sizes have none.
             # FIXME: the nyquist is messy due to hermitian constraints
             # let's do not touch them till we know they are important.
             mask = functools.reduce(numpy.bitwise_or,
-                 [ ii == n // 2
+                 [ 2 * ii == n
                    for ii, n in zip(i, complex.Nmesh)])
             slab[mask] = 0
 
-            # also remove the nyquist of the input
+            # also remove the nyquist of the input, if it is in the range of the output
             mask = functools.reduce(numpy.bitwise_or,
-                 [ ii == n // 2
-                   for ii, n in zip(i, self.Nmesh)])
+                 [ (2 * ii == n) & (n < nout)
+                   for ii, n, nout in zip(i, self.Nmesh, complex.Nmesh)])
             slab[mask] = 0
 
         if isinstance(out, RealField):
             complex.c2r(out)
+        elif isinstance(out, UntransposedComplexField):
+            complex.cast(type=UntransposedComplexField, out=out)
 
         return out
 
@@ -1139,8 +1138,8 @@ def reindex(Nsrc, Ndest):
 
     """
     reindex = numpy.arange(Ndest)
-    reindex[Ndest // 2 + 1:] = numpy.arange(Nsrc - Ndest // 2 + 1, Nsrc, 1)
-    reindex[Nsrc // 2 + 1: Ndest -Nsrc //2 + 1] = -1
+    reindex[Ndest // 2 + 1:] += Nsrc - Ndest
+    reindex[Nsrc // 2 + 1: Ndest - (Nsrc - 1) // 2] = -1
     return reindex
 
 def exchange(layout, value):
-- 
2.43.0


From 5456bba26b69538da695fd5094fb7ad91af56b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:52 +0000
Subject: [PATCH 17/49] fix: jacobian product of reading out a derivative

---
 pmesh/pm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index a3467b8..d60c660 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -849,11 +849,13 @@ class RealField(Field):
         jvp = numpy.zeros(len(pos))
 
         if v_pos is not None:
+            if gradient is not None:
+                raise ValueError("gradient of gradient is not yet supported")
             for d in range(self.ndim):
                 jvp[...] += self.readout(pos, resampler=resampler, transform=transform, gradient=d, layout=layout) * v_pos[..., d]
 
         if v_self is not None:
-            jvp[...] += v_self.readout(pos, resampler=resampler, transform=transform, gradient=None, layout=layout)
+            jvp[...] += v_self.readout(pos, resampler=resampler, transform=transform, gradient=gradient, layout=layout)
 
         return jvp
 
-- 
2.43.0


From 3bfe732b4c826611179ab89479732c782412784d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:57 +0000
Subject: [PATCH 18/49] fix: inner product of a real field with an array

---
 pmesh/pm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index d60c660..358e7f2 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -212,7 +212,7 @@ class Field(NDArrayLike):
             if not isinstance(other, _gettype(self)):
                 raise TypeError("type of two operands of cdot must be the same type")
         else:
-            assert all(numpy.shape(other) == self.shape)
+            assert numpy.shape(other) == self.shape
 
     def copy(self):
         return self.pm.create(_gettype(self), value=self.value)
-- 
2.43.0


From 77554e1b36374baccd6f2d4456d90ede23c9b3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:57 +0000
Subject: [PATCH 19/49] fix: count the last modes of compressed fields of odd
 size twice

---
 pmesh/pm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 358e7f2..872af2d 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -914,7 +914,7 @@ class BaseComplexField(Field):
         y = y.copy()
         # if a conjugate is not stored and not self, increase the weight
         # because we shall add it.
-        mask = (i[-1] != 0) & (i[-1] != self.Nmesh[-1] // 2)
+        mask = (i[-1] != 0) & (2 * i[-1] != self.Nmesh[-1])
         y += mask * y
         return y
 
-- 
2.43.0


From a909d43e04b5544a001fdd243a1f6c17bb5cff6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:57 +0000
Subject: [PATCH 20/49] fix: upsampling with wide windows on several ranks

---
 pmesh/pm.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 872af2d..3e3f22d 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -1970,7 +1970,6 @@ class ParticleMesh(object):
                     period=source.Nmesh)
 
         layout = source.pm.decompose(q, smoothing=resampler, transform=transform)
-        layout = source.pm.decompose(q, smoothing=1.6, transform=transform)
 
         f = source.readout(q, resampler=resampler, layout=layout, transform=transform)
 
-- 
2.43.0


From d17ba7bf7d15294577fd04aa4d31278ff83efe8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:53 +0000
Subject: [PATCH 21/49] fix: previews with all axes in another order

---
 pmesh/pm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 3e3f22d..6a0ab97 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -608,7 +608,7 @@ class Field(NDArrayLike):
             removeaxes = tuple(range(len(all_axes) - len(removeaxes), len(all_axes)))
             result[local_slice] += out.transpose(all_axes).sum(axis=removeaxes)
         else:
-            result[local_slice] += out
+            result[local_slice] += out.transpose(axes)
 
         self.pm.comm.Allreduce(MPI.IN_PLACE, result)
         return result
-- 
2.43.0


From 0c120da814f05e13dccca42ee284237d8e95a652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:50 +0000
Subject: [PATCH 22/49] fix: in-place operations on fields return the field
 that was changed

---
 pmesh/pm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 6a0ab97..1552c51 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -186,6 +186,11 @@ class Field(NDArrayLike):
                 for x in out)
 
         result = getattr(ufunc, method)(*inputs, **kwargs)
+
+        if out:
+            # the result is in the objects given as out, return these.
+            return out if len(out) > 1 else out[0]
+
         def cast(result):
             # booleans, cannot be reasonable Field objects
             # just return the ndarray
-- 
2.43.0


From ba3b25d6e37d53c732a228b63290c66aa31d4d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:53 +0000
Subject: [PATCH 23/49] fix: check the axes of a transposition, and take them
 as a tuple

---
 pmesh/pm.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 1552c51..b600162 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -706,16 +706,15 @@ class RealField(Field):
             This is currently implemented very inefficiently, with readout and paint operations.
 
         """
+        # for fancy indexing
+        axes = numpy.array(axes, dtype='intp')
+
         # must be full rank axes.
-        assert len(numpy.unique(axes)) == self.ndim
-        assert numpy.max(axes) == self.ndim - 1
+        assert numpy.array_equal(numpy.sort(axes), numpy.arange(self.ndim))
 
         # create a new pm with transposed BoxSize and Nmesh
         pm = self.pm.reshape(BoxSize=self.BoxSize[axes], Nmesh=self.Nmesh[axes])
 
-        # for fancy indexing
-        axes = numpy.array(axes, dtype='intp')
-
         q = self.pm.generate_uniform_particle_grid(shift=0)
         v = self.readout(q, resampler='nnb')
 
-- 
2.43.0


From 42fc01436b4f9cf485b89a43845ef9a4fbbdad71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:38 +0000
Subject: [PATCH 24/49] fix: types of the mesh coordinates and the uniform
 particle grid

---
 pmesh/pm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index b600162..3559408 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -1704,7 +1704,8 @@ class ParticleMesh(object):
         partition = self.plans['partitionT']
 
         coord = numpy.indices(partition.local_i_shape, dtype).reshape(self.ndim, -1).T
-        source = coord + partition.local_i_start
+        # stay in the requested type
+        source = numpy.add(coord, partition.local_i_start, dtype=coord.dtype)
         return source
 
     def generate_uniform_particle_grid(self, shift=None, dtype=None, return_id=False):
@@ -1728,7 +1729,7 @@ class ParticleMesh(object):
                 grid : array_like (N, ndim)
                 id   : array_like (N)
         """
-        if dtype is None: dtype == self.dtype
+        if dtype is None: dtype = numpy.empty(0, self.dtype).real.dtype
 
         if shift is None:
             warnings.warn(
-- 
2.43.0


From 8910a053c7baf769dad35b0aeb1dd9df8938e00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:03 +0000
Subject: [PATCH 25/49] fix: line integral convolution on several ranks

---
 pmesh/lic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pmesh/lic.py b/pmesh/lic.py
index a8c4df2..fbac7cc 100644
--- a/pmesh/lic.py
+++ b/pmesh/lic.py
@@ -58,7 +58,6 @@ def lic(vectors, kernel, length, ds, resampler=None, texture=None, normalize=Tru
     resampler = FindResampler(resampler)
 
     f = texture.readout(Q, resampler='nearest')
-    vmax = max(abs(v[...]).max() for v in vectors)
 
     for sign in [-1, +1]:
         x = Q.copy()
@@ -66,10 +65,12 @@ def lic(vectors, kernel, length, ds, resampler=None, texture=None, normalize=Tru
         while s < length * 0.5:
             k = kernel(s * sign / (length * 0.5))
             dx = x * 0.0
-            layout = pm.decompose(x, smoothing=vmax * ds * 0.5 + resampler.support * 0.5)
+            layout = pm.decompose(x, smoothing=resampler)
             for d, v in enumerate(vectors):
                 dx[..., d] = v.readout(x, layout=layout, resampler=resampler) * ds
             x[...] += dx * 0.5 * sign
+            # the mid point can be on another rank
+            layout = pm.decompose(x, smoothing=resampler)
             f[...] += texture.readout(x, layout=layout, resampler=resampler) * k * ds
             x[...] += dx * 0.5 * sign
 
-- 
2.43.0


From 41f360fe8a5108644675eece93d111be4f3121ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:03 +0000
Subject: [PATCH 26/49] fix: step of the line integral convolution is in pixels

---
 pmesh/lic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pmesh/lic.py b/pmesh/lic.py
index fbac7cc..91593be 100644
--- a/pmesh/lic.py
+++ b/pmesh/lic.py
@@ -59,6 +59,9 @@ def lic(vectors, kernel, length, ds, resampler=None, texture=None, normalize=Tru
 
     f = texture.readout(Q, resampler='nearest')
 
+    # ds is in pixels
+    cellsize = pm.BoxSize / pm.Nmesh
+
     for sign in [-1, +1]:
         x = Q.copy()
         s = 0
@@ -67,7 +70,7 @@ def lic(vectors, kernel, length, ds, resampler=None, texture=None, normalize=Tru
             dx = x * 0.0
             layout = pm.decompose(x, smoothing=resampler)
             for d, v in enumerate(vectors):
-                dx[..., d] = v.readout(x, layout=layout, resampler=resampler) * ds
+                dx[..., d] = v.readout(x, layout=layout, resampler=resampler) * ds * cellsize[d]
             x[...] += dx * 0.5 * sign
             # the mid point can be on another rank
             layout = pm.decompose(x, smoothing=resampler)
-- 
2.43.0


From 8c9f05f5e7e5302af3f2d9e007ec4126e8699c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:38 +0000
Subject: [PATCH 27/49] fix: paint the line integrals as mass, not as smoothing
 length

---
 pmesh/lic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/lic.py b/pmesh/lic.py
index 91593be..5919ae2 100644
--- a/pmesh/lic.py
+++ b/pmesh/lic.py
@@ -79,4 +79,4 @@ def lic(vectors, kernel, length, ds, resampler=None, texture=None, normalize=Tru
 
             s += ds
 
-    return pm.paint(Q, f, resampler='nearest')
+    return pm.paint(Q, mass=f, resampler='nearest')
-- 
2.43.0


From 9c544d22d7206e9680ee5b410575b8e5657a1f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:38 +0000
Subject: [PATCH 28/49] fix: co-arrays mix up pulls and pushes between the same
 images, and elements that are not contiguous

---
 pmesh/coarray.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/pmesh/coarray.py b/pmesh/coarray.py
index 01af88c..48299cb 100644
--- a/pmesh/coarray.py
+++ b/pmesh/coarray.py
@@ -111,20 +111,31 @@ class coaproxy(object):
     def __str__(self):
         return 'coaproxy:%d/%d %s' % (self.coindex, self.comm.size, self.indices)
 
-class Op(object): pass
+# pulls and pushes between the same images must not be mixed up.
+TAG_PULL = 1
+TAG_PUSH = 2
+
+class Op(object):
+    def target(self):
+        """ the local counter part of the elements addressed by the proxy """
+        value = self.proxy.coa
+        for index in self.proxy.indices:
+            value = value[index]
+        return value
 
 class Pull(Op):
     def __init__(self, coa, localindex, proxy):
         self.localindex = localindex
         self.coa = coa
         self.proxy = proxy
-        self.buffer = numpy.copy(coa[localindex], order='C') # continuous
+        target = self.target()
+        self.buffer = numpy.empty(numpy.shape(target), dtype=target.dtype) # continuous
         self.done = False
 
     def start(self):
         comm = self.proxy.comm
     #    print('irecv into', self.proxy.coindex, self.buffer.data)
-        return comm.Irecv(buf=self.buffer, source=self.proxy.coindex)
+        return comm.Irecv(buf=self.buffer, source=self.proxy.coindex, tag=TAG_PULL)
 
     def finish(self):
         self.coa[self.localindex] = self.buffer
@@ -140,7 +151,12 @@ class Push(Op):
     def start(self):
         comm = self.proxy.comm
     #    print('isend to ', self.proxy.coindex, self.buffer.data)
-        return comm.Isend(self.buffer, dest=self.proxy.coindex)
+        target = self.target()
+        # continuous, and of the type and shape that is expected
+        buffer = numpy.empty(numpy.shape(target), dtype=target.dtype)
+        buffer[...] = self.buffer
+        self.buffer = buffer
+        return comm.Isend(self.buffer, dest=self.proxy.coindex, tag=TAG_PUSH)
 
     def finish(self):
         self.done = True
@@ -194,7 +210,7 @@ class coameta(object):
 
 class coarray(numpy.ndarray):
     def __new__(kls, comm, *args, **kwargs):
-        self = super(coarray, cls).__new__(cls, *args, **kwargs)
+        self = super(coarray, kls).__new__(kls, *args, **kwargs)
         self.__coameta__ = coameta(comm, self)
         return self
 
@@ -271,7 +287,7 @@ class coarray(numpy.ndarray):
                 value = value[index]
 
             print('sending to', senddest, value.data, value, self)
-            comm.Send(value, dest=senddest)
+            comm.Send(numpy.array(value, order='C'), dest=senddest, tag=TAG_PULL)
 
         for recvindices, recvsource in recvactions:
             value = self
@@ -283,8 +299,9 @@ class coarray(numpy.ndarray):
 
             print('receiving from ', recvsource, value.data)
             # trigger setitem
-            buf = numpy.zeros_like(value[recvindices[-1]])
-            comm.Recv(buf, recvsource)
+            target = value[recvindices[-1]]
+            buf = numpy.zeros(numpy.shape(target), dtype=target.dtype)
+            comm.Recv(buf, recvsource, tag=TAG_PUSH)
             value[recvindices[-1]] = buf
 
         MPI.Request.waitall(requests)
-- 
2.43.0


From 6a3a9a484ca749fb7b42693358a682d447bbf0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:17 +0000
Subject: [PATCH 29/49] fix: do not leave ranks waiting if the function fails
 on the root

---
 pmesh/tools.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pmesh/tools.py b/pmesh/tools.py
index 8a52011..4b5ada0 100644
--- a/pmesh/tools.py
+++ b/pmesh/tools.py
@@ -20,11 +20,17 @@ class Rotator(object):
 def FromRoot(comm):
     def decorator(func):
         def wrapped(*args, **kwargs):
+            rt, error = None, None
             if comm.rank == 0:
-                rt = func(*args, **kwargs)
-            else:
-                rt = None
-            rt = comm.bcast(rt)
+                try:
+                    rt = func(*args, **kwargs)
+                except BaseException as e:
+                    # other ranks are waiting for the result
+                    comm.bcast((None, repr(e)))
+                    raise
+            rt, error = comm.bcast((rt, error))
+            if error is not None:
+                raise RuntimeError("failed on the root rank: %s" % error)
             return rt
         return wrapped
     return decorator
-- 
2.43.0


From cdc0d63ad8e622958b03e4fc2b3d5f25afc12529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:33 +0000
Subject: [PATCH 30/49] fix: triangular painting was off by one cell

---
 pmesh/tsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/tsc.py b/pmesh/tsc.py
index 782a4e5..195c914 100644
--- a/pmesh/tsc.py
+++ b/pmesh/tsc.py
@@ -84,7 +84,7 @@ def paint_some(pos, mesh, meshflat, weights, period):
                 intpos = numpy.rint(pos[i, d]) # NGP index
                 diff = intpos - pos[i, d]
                 rel = (n // 3**d) % 3 - 1 # maps offset (rel. to NGP) to (-1, 0, 1)
-                targetpos = intpos + rel - 1
+                targetpos = intpos + rel
                 if rel == -1: # before NGP
                     kernel *= 0.5 * (0.5+diff)*(0.5+diff)
                 elif rel == 0: # NGP
-- 
2.43.0


From 4295a809b82fb60c48313132dcf82ca8da51957d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:33 +0000
Subject: [PATCH 31/49] fix: triangular painting with a period per dimension

---
 pmesh/tsc.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pmesh/tsc.py b/pmesh/tsc.py
index 195c914..12a7eeb 100644
--- a/pmesh/tsc.py
+++ b/pmesh/tsc.py
@@ -52,7 +52,12 @@ def driver(pos, mesh, weights, mode, period, transform,
     # scratch 
     if transform is None:
         transform = lambda x:x
-    if period is None: period = 0
+    if period is None: period = numpy.zeros(Ndim, dtype='i4')
+    else:
+        p = numpy.empty(Ndim, dtype='i4')
+        p[...] = period
+        period = p
+
     for start in range(0, Np, chunksize):
         chunk = slice(start, start+chunksize)
         mypos = transform(pos[chunk])
@@ -72,7 +77,6 @@ def paint_some(pos, mesh, meshflat, weights, period):
     Np = pos.shape[0]
     Nmax = int(3 ** Ndim)
     ignore = False
-    period = int(period)
     outbound = 0
     for i in range(Np):
         w = float(weights[i])
@@ -93,11 +97,11 @@ def paint_some(pos, mesh, meshflat, weights, period):
                     kernel *= 0.5 * (0.5-diff)*(0.5-diff)
                 
                 # wrap by period
-                if period > 0:
-                    while targetpos >= period:
-                        targetpos -= period
+                if period[d] > 0:
+                    while targetpos >= period[d]:
+                        targetpos -= period[d]
                     while targetpos < 0:
-                        targetpos += period
+                        targetpos += period[d]
                 if targetpos < 0 or \
                         targetpos >= mesh.shape[d]:
                     ignore = True
-- 
2.43.0


From cf2e7e3322a26181ee9b8e406a9f3c0154720c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:33 +0000
Subject: [PATCH 32/49] fix: readout with the triangular window

---
 pmesh/tsc.py | 44 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/pmesh/tsc.py b/pmesh/tsc.py
index 12a7eeb..9d507bc 100644
--- a/pmesh/tsc.py
+++ b/pmesh/tsc.py
@@ -115,3 +115,47 @@ def paint_some(pos, mesh, meshflat, weights, period):
 
     return outbound
 
+@numba.jit(nopython=True)
+def readout_some(pos, mesh, meshflat, myvalue, period):
+    Ndim = pos.shape[1]
+    Np = pos.shape[0]
+    Nmax = int(3 ** Ndim)
+    ignore = False
+    outbound = 0
+    for i in range(Np):
+        tmp = 0.0
+        for n in range(Nmax):
+            ignore = False
+            kernel = 1.0
+            ind = 0
+            for d in range(Ndim):
+                intpos = numpy.rint(pos[i, d]) # NGP index
+                diff = intpos - pos[i, d]
+                rel = (n // 3**d) % 3 - 1 # maps offset (rel. to NGP) to (-1, 0, 1)
+                targetpos = intpos + rel
+                if rel == -1: # before NGP
+                    kernel *= 0.5 * (0.5+diff)*(0.5+diff)
+                elif rel == 0: # NGP
+                    kernel *= 0.75 - diff*diff
+                else: # after NGPs
+                    kernel *= 0.5 * (0.5-diff)*(0.5-diff)
+                
+                # wrap by period
+                if period[d] > 0:
+                    while targetpos >= period[d]:
+                        targetpos -= period[d]
+                    while targetpos < 0:
+                        targetpos += period[d]
+                if targetpos < 0 or \
+                        targetpos >= mesh.shape[d]:
+                    ignore = True
+                    break
+                ind += mesh.strides[d]*targetpos
+
+            if ignore:
+                outbound += 1
+                continue
+            tmp += meshflat[int(ind/mesh.itemsize)] * kernel
+        myvalue[i] = tmp
+
+    return outbound
-- 
2.43.0


From 35f5ec5a6729c736a31111180ada886f5368c3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:33 +0000
Subject: [PATCH 33/49] fix: cloud in cell painting to arrays that are not
 contiguous

---
 pmesh/_cic.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pmesh/_cic.py b/pmesh/_cic.py
index 69fa714..3d9b7e8 100644
--- a/pmesh/_cic.py
+++ b/pmesh/_cic.py
@@ -67,8 +67,12 @@ def driver(pos, mesh, weights, mode, period, transform,
             wchunk[:] = weights
         else:
             wchunk = weights[chunk]
-        if callback(mypos, mesh, mesh.ravel(), wchunk, period) \
-                and mode == "raise":
+        meshflat = mesh.ravel()
+        outbound = callback(mypos, mesh, meshflat, wchunk, period)
+        if callback is paint_some and not numpy.may_share_memory(meshflat, mesh):
+            # ravel made a copy
+            mesh[...] = meshflat.reshape(mesh.shape)
+        if outbound and mode == "raise":
            raise ValueError("Some points are out of boundary")
     return mesh
 @numba.jit(nopython=True)
-- 
2.43.0


From 419545b10d141b0d927a415bbc83eb33185829f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:29 +0000
Subject: [PATCH 34/49] fix: laplacian multiplies every mode by its own
 frequency

---
 pmesh/transfer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pmesh/transfer.py b/pmesh/transfer.py
index c23a503..9da50bd 100644
--- a/pmesh/transfer.py
+++ b/pmesh/transfer.py
@@ -200,9 +200,8 @@ class TransferFunction:
             w2 = w[0][row] ** 2
             for wi in w[1:]:
                 w2 = w2 + wi[0] ** 2
-            w2[w2 == 0] = numpy.inf
             w2 *= -1
-        complex[:] *= w2
+            complex[row] *= w2
 
     @staticmethod
     def Poisson(pm, complex):
-- 
2.43.0


From ed23e57f4d5294537f3793019bed9a58ad50d4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:29 +0000
Subject: [PATCH 35/49] fix: trilinear deconvolution takes the same arguments
 as the other transfer functions

---
 pmesh/transfer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmesh/transfer.py b/pmesh/transfer.py
index 9da50bd..6ae9541 100644
--- a/pmesh/transfer.py
+++ b/pmesh/transfer.py
@@ -66,8 +66,8 @@ class TransferFunction:
         ind = tuple(ind)
         complex[ind] = 0
     @staticmethod
-    def Trilinear(comm, complex, w):
-        for wi in w:
+    def Trilinear(pm, complex):
+        for wi in pm.w:
             # convert to 
             tmp = numpy.sinc(wi / (2 * numpy.pi)) ** 2
             complex[:] /= tmp
-- 
2.43.0


From db433f04d1048378668adb7cd75b79177f9fa690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:29 +0000
Subject: [PATCH 36/49] fix: power spectrum of every row, with the weights of
 compressed modes

---
 pmesh/transfer.py | 43 +++++++++++++++++++------------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/pmesh/transfer.py b/pmesh/transfer.py
index 6ae9541..796ea2e 100644
--- a/pmesh/transfer.py
+++ b/pmesh/transfer.py
@@ -142,41 +142,36 @@ class TransferFunction:
 
             P = numpy.zeros(len(psout))
             N = numpy.zeros(len(psout))
+            wsum = numpy.zeros(len(psout))
+
+            # pickup the singular planes that are single counted (r2c transform):
+            # the zero and the nyquist frequency of the last axis.
+            wz = w[-1][0]
+            singular = (wz == 0) | (abs(abs(wz) - numpy.pi) < 1e-5)
 
             for row in range(complex.shape[0]):
-                # pickup the singular plane that is single counted (r2c transform)
-                singular = w[0][-1] == 0
                 scratch = w[0][row] ** 2
                 for wi in w[1:]:
                     scratch = scratch + wi[0] ** 2
 
+                weight = numpy.where(singular, 0.5, 1.0) * numpy.ones(scratch.shape)
+
                 # now scratch stores w ** 2
                 dig = numpy.digitize(scratch.flat, w2edges)
 
-                # take the sum of w
-                scratch **= 0.5
-                # the singular plane is down weighted by 0.5
-                scratch[singular] *= 0.5
-
-                wsum = numpy.bincount(dig, weights=scratch.flat, minlength=wout.size + 2)[1: -1]
-                wsum = comm.allreduce(wsum, MPI.SUM)
-
-                # take the sum of weights
-                scratch[...] = 1.0
-                # the singular plane is down weighted by 0.5
-                scratch[singular] = 0.5
-
-                N1 = numpy.bincount(dig, weights=scratch.flat, minlength=wout.size + 2)[1: -1]
-                N += comm.allreduce(N1, MPI.SUM)
+                # the singular planes are down weighted by 0.5
+                def binsum(value):
+                    return numpy.bincount(dig, weights=(value * weight).flat, minlength=wout.size + 2)[1: -1]
 
-                # take the sum of power
-                numpy.abs(complex[row], out=scratch)
-                scratch[...] **= 2.0
-                # the singular plane is down weighted by 0.5
-                scratch[singular] *= 0.5
+                # take the sum of w, of weights, and of power
+                wsum += binsum(scratch ** 0.5)
+                N += binsum(1.0)
+                P += binsum(numpy.abs(complex[row]) ** 2.0)
 
-                P1 = numpy.bincount(dig, weights=scratch.flat, minlength=wout.size + 2)[1: -1]
-                P += comm.allreduce(P1, MPI.SUM)
+            # ranks have different number of rows
+            wsum = comm.allreduce(wsum, MPI.SUM)
+            N = comm.allreduce(N, MPI.SUM)
+            P = comm.allreduce(P, MPI.SUM)
 
             psout[:] = P / N 
             wout[:] = wsum / N
-- 
2.43.0


From d2ad25ba2254424eb838d9708656cb59419e87b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:29 +0000
Subject: [PATCH 37/49] fix: frequencies of the legacy mesh of odd size

---
 pmesh/particlemesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmesh/particlemesh.py b/pmesh/particlemesh.py
index 1d683b7..bf00bdc 100644
--- a/pmesh/particlemesh.py
+++ b/pmesh/particlemesh.py
@@ -136,8 +136,8 @@ class ParticleMesh(object):
             wi = numpy.arange(s[d], dtype='f4') + self.partition.local_o_start[d] 
             ri = numpy.arange(t[d], dtype='f4') + self.partition.local_i_start[d] 
 
-            wi[wi >= self.Nmesh // 2] -= self.Nmesh
-            ri[ri >= self.Nmesh // 2] -= self.Nmesh
+            wi[wi >= (self.Nmesh + 1) // 2] -= self.Nmesh
+            ri[ri >= (self.Nmesh + 1) // 2] -= self.Nmesh
 
             wi *= (2 * numpy.pi / self.Nmesh)
             ki = wi * self.Nmesh / self.BoxSize[d]
-- 
2.43.0


From fa8ea24165a92967af814fc12ba0818769bea235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:29 +0000
Subject: [PATCH 38/49] fix: smoothing of the decomposition of the legacy mesh
 with the triangular window

---
 pmesh/particlemesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pmesh/particlemesh.py b/pmesh/particlemesh.py
index bf00bdc..b97f119 100644
--- a/pmesh/particlemesh.py
+++ b/pmesh/particlemesh.py
@@ -215,7 +215,9 @@ class ParticleMesh(object):
         to the correct MPI ranks that hosts the PM local mesh
         """
         with self.T['Decompose']:
-            return self.domain.decompose(pos, smoothing=1.0,
+            # half of the support of the painter
+            smoothing = {'cic' : 1.0, 'tsc' : 1.5}[self.paintbrush]
+            return self.domain.decompose(pos, smoothing=smoothing,
                     transform=self.transform0)
     def clear(self):
         """ 
-- 
2.43.0


From 2793b92d9878162bb4df1f250ac51b462575cb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:30 +0000
Subject: [PATCH 39/49] fix: isprimary takes any array_like position

---
 pmesh/domain.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index 972c16b..2a0796c 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -553,6 +553,8 @@ class GridND(object):
 
         """
 
+        pos = numpy.asarray(pos)
+
         if self.primary_region is None:
             return numpy.zeros(len(pos), dtype='?')
 
-- 
2.43.0


From dd3ea45e59ffcb1084738d5337dd20300d5a508c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:18 +0000
Subject: [PATCH 40/49] fix: more than 32767 domains along an axis overflow the
 indices of domains

---
 pmesh/_domain.pyx | 4 ++--
 pmesh/domain.py   | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pmesh/_domain.pyx b/pmesh/_domain.pyx
index b24a0e3..976a474 100644
--- a/pmesh/_domain.pyx
+++ b/pmesh/_domain.pyx
@@ -10,8 +10,8 @@ def gridnd_fill(
         int mode,
         int [::1] counts,
         int [:] adims,
-        short int [:, ::1] sil,
-        short int [:, ::1] sir,
+        int [:, ::1] sil,
+        int [:, ::1] sir,
         int periodic,
         short int [::1] domain_is_degenerate,
         int [::1] DomainAssign,
diff --git a/pmesh/domain.py b/pmesh/domain.py
index 2a0796c..e04af1d 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -451,7 +451,7 @@ class GridND(object):
         periodic = self.periodic
 
         if Npoint != 0:
-            sil = numpy.empty((self.ndim, Npoint), dtype='i2', order='C')
+            sil = numpy.empty((self.ndim, Npoint), dtype='i4', order='C')
             chunksize = 1024 * 48
             for i in range(0, Npoint, chunksize):
                 s = slice(i, i + chunksize)
@@ -626,8 +626,8 @@ class GridND(object):
         periodic = self.periodic
 
         if Npoint != 0:
-            sil = numpy.empty((self.ndim, Npoint), dtype='i2', order='C')
-            sir = numpy.empty((self.ndim, Npoint), dtype='i2', order='C')
+            sil = numpy.empty((self.ndim, Npoint), dtype='i4', order='C')
+            sir = numpy.empty((self.ndim, Npoint), dtype='i4', order='C')
             chunksize = 1024 * 48
             for i in range(0, Npoint, chunksize):
                 s = slice(i, i + chunksize)
-- 
2.43.0


From a0bbf7bbd26de35a99939ffc9a733b964fe42611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:48 +0000
Subject: [PATCH 41/49] fix: primary regions, loads and decompositions of
 positions in single precision agree

The modular arithmetic was done in the precision of the positions by load and
decompose, and in double precision by isprimary; a position just below zero was
in the last domain for the one and in the first for the others.
---
 pmesh/domain.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index e04af1d..69c197b 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -455,7 +455,8 @@ class GridND(object):
             chunksize = 1024 * 48
             for i in range(0, Npoint, chunksize):
                 s = slice(i, i + chunksize)
-                chunk = transform(pos[s])
+                # in double precision, the same for all methods
+                chunk = numpy.asarray(transform(pos[s]), dtype='f8')
                 for j in range(self.ndim):
                     if periodic:
                         tmp = numpy.remainder(chunk[:, j], self.edges[j][-1])
@@ -571,7 +572,7 @@ class GridND(object):
 
         for i in range(0, len(pos), chunksize):
             s = slice(i, i + chunksize)
-            chunk = transform(pos[s])[..., :self.ndim]
+            chunk = numpy.asarray(transform(pos[s]), dtype='f8')[..., :self.ndim]
             if self.periodic:
                 chunk = numpy.remainder(chunk,  BoxSize)
                 # a tiny negative coordinate is rounded to the box size
@@ -631,7 +632,8 @@ class GridND(object):
             chunksize = 1024 * 48
             for i in range(0, Npoint, chunksize):
                 s = slice(i, i + chunksize)
-                chunk = transform(pos[s])
+                # in double precision, the same for all methods
+                chunk = numpy.asarray(transform(pos[s]), dtype='f8')
                 for j in range(self.ndim):
                     tmp = chunk[:, j]
                     if periodic:
-- 
2.43.0


From 4b948ce402d3df71768b8c13c09ce691336a2f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:33 +0000
Subject: [PATCH 42/49] fix: masses and smoothing lengths given as lists are
 exchanged too

Painting and reading out accept any array_like without a layout, but raised
AttributeError on lists with one.
---
 pmesh/pm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pmesh/pm.py b/pmesh/pm.py
index 3559408..a33c5de 100644
--- a/pmesh/pm.py
+++ b/pmesh/pm.py
@@ -1152,8 +1152,7 @@ def exchange(layout, value):
     if value is None:
         return None
 
-    if numpy.isscalar(value):
-        value = numpy.array(value)
+    value = numpy.asarray(value)
 
     if value.ndim != 0:
         localvalue = layout.exchange(value)
-- 
2.43.0


From 6692708a1ce10c800fda9a533f4e3901aeb14252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:24 +0000
Subject: [PATCH 43/49] fix: a grid keeps its own assignment of domains, given
 in any integer form

---
 pmesh/domain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index 69c197b..a944f61 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -409,7 +409,8 @@ class GridND(object):
                     end = (i + 1) * self.size // comm.size
                     DomainAssign[start:end] = i
 
-        self.DomainAssign = DomainAssign
+        # balancing the load changes the assignment, the array given stays as it is
+        self.DomainAssign = numpy.array(DomainAssign, dtype='int32')
 
         dd = numpy.zeros(self.shape, dtype='int16')
 
-- 
2.43.0


From 6ec6d14cba706137cc241cd083a183d2c3189774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:35 +0000
Subject: [PATCH 44/49] fix: filters of the gradient engine on slabs, and of
 meshes of odd size

---
 pmesh/abopt.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pmesh/abopt.py b/pmesh/abopt.py
index dec6048..c3b4209 100644
--- a/pmesh/abopt.py
+++ b/pmesh/abopt.py
@@ -11,8 +11,10 @@ from pmesh.pm import ParticleMesh, RealField, ComplexField
 
 def nyquist_mask(factor, v):
     # any nyquist modes are set to 0 if the transfer function is complex
-    mask = (numpy.imag(factor) == 0) | \
-            ~numpy.bitwise_and.reduce([(ii == 0) | (ii == ni // 2) for ii, ni in zip(v.i, v.Nmesh)])
+    nyquist = True
+    for ii, ni in zip(v.i, v.Nmesh):
+        nyquist = nyquist & ((ni - ii) % ni == ii)
+    mask = (numpy.imag(factor) == 0) | ~nyquist
     return factor * mask
 
 class ParticleMeshVectorSpace(VectorSpace):
@@ -109,7 +111,9 @@ class ParticleMeshEngine(Engine):
     @staticmethod
     def _lowpass_filter(k, v, Neff):
         k0s = 2 * numpy.pi / v.BoxSize
-        mask = numpy.bitwise_and.reduce([abs(ki) <= Neff//2 * k0 for ki, k0 in zip(k, k0s)])
+        mask = True
+        for ki, k0 in zip(k, k0s):
+            mask = mask & (abs(ki) <= (Neff//2 + 0.5) * k0)
         return v * mask
 
     @statement(aout=['real'], ain=['real'])
-- 
2.43.0


From a00a321bbb5b6f8274c9d3a51a837eb8c7e366e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:35 +0000
Subject: [PATCH 45/49] fix: tangent and adjoint of the lowpass filter are
 filtered

---
 pmesh/abopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmesh/abopt.py b/pmesh/abopt.py
index c3b4209..a0de117 100644
--- a/pmesh/abopt.py
+++ b/pmesh/abopt.py
@@ -124,13 +124,13 @@ class ParticleMeshEngine(Engine):
 
     @lowpass.defvjp
     def _(engine, _real, Neff):
-        _real.c2r_vjp().apply(
+        _real.c2r_vjp(out=Ellipsis).apply(
             lambda k, v: engine._lowpass_filter(k, v, Neff),
             out=Ellipsis).r2c_vjp(out=Ellipsis)
 
     @lowpass.defjvp
     def _(engine, real_, Neff):
-        real_.r2c().apply(
+        real_.r2c(out=Ellipsis).apply(
             lambda k, v: engine._lowpass_filter(k, v, Neff),
             out=Ellipsis).c2r(out=Ellipsis)
 
-- 
2.43.0


From a917147f16c5af363884e01fdf2ad7b5dca7504a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:35 +0000
Subject: [PATCH 46/49] fix: tangent of painting is normalised like painting

---
 pmesh/abopt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pmesh/abopt.py b/pmesh/abopt.py
index a0de117..65552c8 100644
--- a/pmesh/abopt.py
+++ b/pmesh/abopt.py
@@ -167,7 +167,9 @@ class ParticleMeshEngine(Engine):
     def _(engine, x_, mesh_, x, layout, layout_):
         pm = engine.pm
         if x_ is ZERO: x_ = None
+        N = pm.comm.allreduce(len(x))
         mesh_[...] = pm.paint_jvp(x, v_pos=x_, layout=layout)
+        mesh_[...][...] *= 1.0 * pm.Nmesh.prod() / N
 
     @statement(aout=['value'], ain=['x', 'mesh', 'layout'])
     def readout(engine, value, x, mesh, layout):
-- 
2.43.0


From a2e6fff7ec9a6db5b7b4a51af843e3d7ab42c748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:35 +0000
Subject: [PATCH 47/49] fix: adjoint of assigning a component forgets what is
 overwritten

---
 pmesh/abopt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pmesh/abopt.py b/pmesh/abopt.py
index 65552c8..850af73 100644
--- a/pmesh/abopt.py
+++ b/pmesh/abopt.py
@@ -224,7 +224,9 @@ class ParticleMeshEngine(Engine):
 
     @assign_component.defvjp
     def _(engine, _attribute, _value, dim):
-        _value[...] = _attribute[..., dim]
+        _value[...] = _attribute[..., dim].copy()
+        # the component is overwritten, its old value has no effect
+        _attribute[..., dim] = 0
 
     @assign_component.defjvp
     def _(engine, attribute_, value_, dim):
-- 
2.43.0


From 0f04910bcc94ff31fa868cac6a299a5d66d9830a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:35 +0000
Subject: [PATCH 48/49] fix: inner product of arrays of vectors

---
 pmesh/abopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmesh/abopt.py b/pmesh/abopt.py
index 850af73..eb3d857 100644
--- a/pmesh/abopt.py
+++ b/pmesh/abopt.py
@@ -54,7 +54,7 @@ class ParticleMeshVectorSpace(VectorSpace):
         elif isinstance(a, numpy.ndarray):
             assert len(a) == len(b)
             assert len(a) == self.qshape[0]
-            return self.pm.comm.allreduce(a.dot(b))
+            return self.pm.comm.allreduce((a * b).sum(dtype='f8'))
         else:
             raise TypeError("type unknown")
 
-- 
2.43.0


From 3b8cd4b45c5b4c20f85d18be023c419cad7076c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:48 +0000
Subject: [PATCH 49/49] fix: uniform domain grid of flat boxes and of boxes in
 any unit of length

---
 pmesh/domain.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/pmesh/domain.py b/pmesh/domain.py
index a944f61..f5fa7fb 100644
--- a/pmesh/domain.py
+++ b/pmesh/domain.py
@@ -367,16 +367,15 @@ class GridND(object):
     def uniform(cls, BoxSize, comm=MPI.COMM_WORLD, periodic=True):
         ndim = len(BoxSize)
 
-        # compute a optimal shape where each domain is as cubical as possible
-
-        r = (1.0 * comm.size / numpy.prod(BoxSize) * min(BoxSize)) ** (1.0 / ndim)
-        shape = [ r * (BoxSize[i] / min(BoxSize)) for i in range(ndim)]
-        shape = numpy.array(shape)
-        imax = shape.argmax()
-        shape = numpy.int32(shape)
-        shape[shape < 1] = 1
-        shape[imax] = 1
-        shape[imax] = comm.size // numpy.prod(shape)
+        # compute a optimal shape where each domain is as cubical as possible;
+        # the axes are divided from the shortest on, the longest takes what is left.
+        shape = numpy.ones(ndim, dtype='int32')
+        axes = sorted(range(ndim), key=lambda i: (BoxSize[i], -i))
+        size = comm.size
+        for k, i in enumerate(axes):
+            volume = numpy.prod([1.0 * BoxSize[j] / BoxSize[i] for j in axes[k:]])
+            shape[i] = max(1, (size / volume) ** (1.0 / (ndim - k)) + 1e-6)
+            size = size // shape[i]
         assert numpy.prod(shape) <= comm.size
 
         edges = []
-- 
2.43.0

