From b88ebcc00cc908d178bd0f404e1bbaa95c9fb8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:04 +0000
Subject: [PATCH 01/56] fix: BravaisLattice no longer needs np.alen, which
 NumPy 1.23 removed

---
 structrans/crystallography/bravais_lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structrans/crystallography/bravais_lattice.py b/structrans/crystallography/bravais_lattice.py
index b4756bb..9670303 100644
--- a/structrans/crystallography/bravais_lattice.py
+++ b/structrans/crystallography/bravais_lattice.py
@@ -33,14 +33,14 @@ class BravaisLattice(Lattice):
             if not latID in range(1, 15):
                 raise ValueError('3D Bravais lattice ID must between 1 and 14')
             pramlen = [1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 6] 
-            if not np.alen(latParam) == pramlen[latID - 1]:
+            if not len(latParam) == pramlen[latID - 1]:
                 raise ValueError('the number of lattice parameters does not match the type of Bravais lattice.')
             E, C = BravaisLattice.__primitiveBase3D__(latID, latParam)
         if dim == 2:
             if not latID in range(1, 6):
                 raise ValueError('2D Bravais lattice ID must be between 1 and 5.')
             pramlen = [1, 2, 2, 1, 3] 
-            if not np.alen(latParam) == pramlen[latID-1]:
+            if not len(latParam) == pramlen[latID-1]:
                 raise ValueError('the number of lattice parameters does not match the type of Bravais lattice.')
             E, C = BravaisLattice.__primitiveBase2D__(latID, latParam)
 
-- 
2.43.0


From e077fd97683775db95a609179ca2e566780ebb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:04 +0000
Subject: [PATCH 02/56] fix: description of a triclinic lattice shows alpha,
 not b, as alpha

---
 structrans/crystallography/bravais_lattice.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/structrans/crystallography/bravais_lattice.py b/structrans/crystallography/bravais_lattice.py
index 9670303..b9f831c 100644
--- a/structrans/crystallography/bravais_lattice.py
+++ b/structrans/crystallography/bravais_lattice.py
@@ -253,8 +253,10 @@ class BravaisLattice(Lattice):
             if self.__latID in range(8, 15):
                 des_str = des_str+',    c = {:g}'.format(self.__latParam[2])
             # print alpha if it exists
-            if self.__latID in [5, 14]:
+            if self.__latID == 5:
                 des_str = des_str+u',    alpha = {:g}'.format(self.__latParam[1])
+            if self.__latID == 14:
+                des_str = des_str+u',    alpha = {:g}'.format(self.__latParam[3])
             # print beta if it exists
             if self.__latID in np.array([12., 13.]):
                 des_str = des_str+u',    beta = {:g}'.format(self.__latParam[3])
-- 
2.43.0


From 8974f34a9fa118f29c1f9cdf0a3898a1a99a51c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:04 +0000
Subject: [PATCH 03/56] fix: toPrimitive() and toConventional() forward their
 argument

---
 structrans/crystallography/bravais_lattice.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/structrans/crystallography/bravais_lattice.py b/structrans/crystallography/bravais_lattice.py
index b9f831c..7e28130 100644
--- a/structrans/crystallography/bravais_lattice.py
+++ b/structrans/crystallography/bravais_lattice.py
@@ -349,8 +349,8 @@ class BravaisLattice(Lattice):
         return res[0] if len(idx) == 1 else res
 
     def toPrimitive(self, idx):
-        warn("toPrimitive() is deprecated, please use to_primitive() instead.", DeprecationWarning)
-        return self.to_primitive()
+        warn("toPrimitive() is deprecated, please use to_primitive_Miller() instead.", DeprecationWarning)
+        return self.to_primitive_Miller(idx)
 
     def to_conventional_Miller(self, idx):
         """
@@ -377,4 +377,4 @@ class BravaisLattice(Lattice):
 
     def toConventional(self, idx):
         warn("toConventional() is deprecated, please use to_conventional_Miller() instead.", DeprecationWarning)
-        return self.to_conventional_Miller()
\ No newline at end of file
+        return self.to_conventional_Miller(idx)
\ No newline at end of file
-- 
2.43.0


From ed4086afc1ccedeb892b4a0900655bd5613f7f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:28 +0000
Subject: [PATCH 04/56] fix: lattices keep their own copy of the arrays they
 are built from and hand out copies

---
 structrans/crystallography/bravais_lattice.py | 13 ++++++-------
 structrans/crystallography/lattice.py         |  3 +--
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/structrans/crystallography/bravais_lattice.py b/structrans/crystallography/bravais_lattice.py
index 7e28130..bea7f58 100644
--- a/structrans/crystallography/bravais_lattice.py
+++ b/structrans/crystallography/bravais_lattice.py
@@ -16,11 +16,10 @@ class BravaisLattice(Lattice):
         Constructor
         '''
         try:
-            if not isinstance(latParam, np.ndarray):
-                if isinstance(latParam, list):
-                    latParam = np.array(latParam)
-                else:
-                    latParam = np.array([latParam])
+            if isinstance(latParam, (list, np.ndarray)):
+                latParam = np.array(latParam)
+            else:
+                latParam = np.array([latParam])
             if len(latParam.shape) > 1:
                 raise ValueError('lattice parameters is not a 1D list nor single value')
             elif any(latParam <= 0):
@@ -297,7 +296,7 @@ class BravaisLattice(Lattice):
         '''
         get the lattice parameters
         '''
-        return self.__latParam
+        return self.__latParam.copy()
 
     def getLatParam(self):
         warn("getLatParam() is deprecated, please use lat_param() instead.", DeprecationWarning)
@@ -310,7 +309,7 @@ class BravaisLattice(Lattice):
         - conv_base = prim_base * **cnvr_mat**
         - prim_idx = **cnvr_mat** * conv_idx
         '''
-        return self.__C
+        return self.__C.copy()
 
     def getConventionalTrans(self):
         warn("getConventionalTrans() is deprecated, please use conventional_trans() instead.", DeprecationWarning)
diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index 351b0a1..ac9a030 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -13,8 +13,7 @@ class Lattice():
     def __init__(self, E):
         # check if E is a square matrix
         try:
-            if not isinstance(E, np.ndarray):
-                E = np.array(E)
+            E = np.array(E)
             if not _is_square_mat(E):
                 raise ValueError('Base is not a square matrix')
             if la.det(E)**2 <= 0.0:
-- 
2.43.0


From e76464cc4672728e1178cff4d0537ea4395a6f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:28 +0000
Subject: [PATCH 05/56] fix: BravaisLattice rejects a dimension other than 2
 and 3 with ValueError

---
 structrans/crystallography/bravais_lattice.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/structrans/crystallography/bravais_lattice.py b/structrans/crystallography/bravais_lattice.py
index bea7f58..427788a 100644
--- a/structrans/crystallography/bravais_lattice.py
+++ b/structrans/crystallography/bravais_lattice.py
@@ -35,13 +35,15 @@ class BravaisLattice(Lattice):
             if not len(latParam) == pramlen[latID - 1]:
                 raise ValueError('the number of lattice parameters does not match the type of Bravais lattice.')
             E, C = BravaisLattice.__primitiveBase3D__(latID, latParam)
-        if dim == 2:
+        elif dim == 2:
             if not latID in range(1, 6):
                 raise ValueError('2D Bravais lattice ID must be between 1 and 5.')
             pramlen = [1, 2, 2, 1, 3] 
             if not len(latParam) == pramlen[latID-1]:
                 raise ValueError('the number of lattice parameters does not match the type of Bravais lattice.')
             E, C = BravaisLattice.__primitiveBase2D__(latID, latParam)
+        else:
+            raise ValueError('dimension of a Bravais lattice must be 2 or 3')
 
         Lattice.__init__(self, E)
         self.__latID = latID        
-- 
2.43.0


From 4c0d42a73793c9c16aa909bb73600a3e27bc7c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:28 +0000
Subject: [PATCH 06/56] fix: Lattice rejects singular and non-finite bases
 whatever their scale

---
 structrans/crystallography/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index ac9a030..5cd21c2 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -16,7 +16,7 @@ class Lattice():
             E = np.array(E)
             if not _is_square_mat(E):
                 raise ValueError('Base is not a square matrix')
-            if la.det(E)**2 <= 0.0:
+            if len(E) == 0 or not np.isfinite(E).all() or la.matrix_rank(E) < len(E):
                 raise ValueError('Bae matrix is singular')
         except Exception:
             raise ValueError('Base is not a square matrix')
-- 
2.43.0


From 936b27c644334021af8b499ae7c3ac115e5dfca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:28 +0000
Subject: [PATCH 07/56] fix: a lattice does not equal its proper sublattices

---
 structrans/crystallography/lattice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index 5cd21c2..c68cfcb 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -180,7 +180,8 @@ class Lattice():
         # E1 A = E2
         A = np.dot(la.inv(E1), E2)
         A_int = np.rint(A)
-        return np.allclose(A, A_int, atol=1E-8)
+        # A must be a change of basis, otherwise `other` is only a sublattice
+        return np.allclose(A, A_int, atol=1E-8) and bool(abs(abs(la.det(A_int)) - 1) < 0.5)
 
     def __str__(self):
         des_str = '{:d} dimensional lattice:'.format(self.__N)
-- 
2.43.0


From 141f3ae04a35815b1c1f647f28307192fa291a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:28 +0000
Subject: [PATCH 08/56] fix: getlatticegroup() returns the lattice group, not
 the special one

---
 structrans/crystallography/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index c68cfcb..1d53f65 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -166,7 +166,7 @@ class Lattice():
 
     def getlatticegroup(self):
         warn("getlatticegroup() is deprecated, please use lattice_group() instead.", DeprecationWarning)
-        return self.special_lattice_group()
+        return self.lattice_group()
 
     def __eq__(self, other):
         if not isinstance(other, Lattice):
-- 
2.43.0


From 30b7e07c08058dee688600228b9b1b97ea449c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:28 +0000
Subject: [PATCH 09/56] fix: inlatticegroup() is False for a matrix of another
 shape

---
 structrans/crystallography/lattice.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index 1d53f65..4917f2d 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -75,6 +75,8 @@ class Lattice():
             M = np.array(M)
         except Exception:
             return False
+        if M.shape != (self.__N, self.__N):
+            return False
         M_int = np.rint(M)
         if not np.allclose(M, M_int, atol=1E-8):
             return False
-- 
2.43.0


From 77a146fd3ee08afb6b70acefb3b929c39aa93339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:28 +0000
Subject: [PATCH 10/56] fix: point group of a 2D hexagonal lattice whose
 mirrors are off the axes

---
 structrans/crystallography/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index 4917f2d..6d110ad 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -124,7 +124,7 @@ class Lattice():
             self.__pointGroup = MatrixGroup(np.append(lg, -lg, axis=0))
         elif self.__pointGroup is None and self.__N == 2:
             self.__pointGroup = MatrixGroup(np.array([Q for Q in SQUARE_EXT_GROUP.matrices() if self.inpointgroup(Q)]))
-            if self.__pointGroup.order() == 4:
+            if self.__pointGroup.order() in (2, 4):
                 hexGroup = MatrixGroup(np.array([Q for Q in HEX2D_EXT_GROUP.matrices() if self.inpointgroup(Q)]))
                 if hexGroup.order() > self.__pointGroup.order():
                     self.__pointGroup = hexGroup
-- 
2.43.0


From 88df93f718d57741f11faa473c4ba09e5987897e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:24 +0000
Subject: [PATCH 11/56] fix: LLL accepts integer bases

---
 structrans/crystallography/lattice_reduction.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/structrans/crystallography/lattice_reduction.py b/structrans/crystallography/lattice_reduction.py
index 15c85b2..29bd5fd 100644
--- a/structrans/crystallography/lattice_reduction.py
+++ b/structrans/crystallography/lattice_reduction.py
@@ -4,6 +4,7 @@ from math import copysign
 
 def Gram_Schmidt(E):
     d = len(E)  # dimension
+    E = np.array(E, dtype='float')
     Eo = np.empty_like(E)
     M = np.eye(d, dtype='float')
     B = np.zeros(d)
@@ -20,7 +21,7 @@ def Gram_Schmidt(E):
 def Gauss_reduction(E):
     d = len(E)
     Eo, M = Gram_Schmidt(E)
-    B = E.copy()
+    B = np.array(E, dtype='float')
     for i in xrange(d):
         for j in xrange(i):
             m = np.round(M[i, j])
@@ -30,7 +31,7 @@ def Gauss_reduction(E):
 
 def projection(i, x, E):
     d = len(x)
-    p = np.zeros_like(x)
+    p = np.zeros(d)
     Eo, _ = Gram_Schmidt(E)
     for j in xrange(i, d):
         p += Eo[:, j] * np.dot(x, Eo[:, j]) / (la.norm(Eo[:, j]) ** 2)
@@ -54,7 +55,7 @@ def LLL(E):
 
     Niter = 0
 
-    B = E.copy()
+    B = np.array(E, dtype='float')
     while Niter < 1000 and swap:
         B = Gauss_reduction(B).copy()
         swap, i = swapping(B)
-- 
2.43.0


From f8e2fb49c957a38bec9fbc21c6447b11ec301582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:24 +0000
Subject: [PATCH 12/56] fix: LLL returns a size-reduced basis

---
 structrans/crystallography/lattice_reduction.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/structrans/crystallography/lattice_reduction.py b/structrans/crystallography/lattice_reduction.py
index 29bd5fd..864b865 100644
--- a/structrans/crystallography/lattice_reduction.py
+++ b/structrans/crystallography/lattice_reduction.py
@@ -23,9 +23,11 @@ def Gauss_reduction(E):
     Eo, M = Gram_Schmidt(E)
     B = np.array(E, dtype='float')
     for i in xrange(d):
-        for j in xrange(i):
+        # the last coefficient first: subtracting b_j changes only the ones before it
+        for j in reversed(xrange(i)):
             m = np.round(M[i, j])
             B[:, i] -= m * B[:, j]
+            M[i, :] -= m * M[j, :]
     return B
 
 
-- 
2.43.0


From 3a977168ba8ef9b5d31e2f292c4bc075d83ca36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:24 +0000
Subject: [PATCH 13/56] fix: LLL returns a basis also when it takes exactly 100
 iterations

---
 structrans/crystallography/lattice_reduction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structrans/crystallography/lattice_reduction.py b/structrans/crystallography/lattice_reduction.py
index 864b865..d8590f3 100644
--- a/structrans/crystallography/lattice_reduction.py
+++ b/structrans/crystallography/lattice_reduction.py
@@ -67,8 +67,8 @@ def LLL(E):
             B[:, i + 1] = b
         Niter += 1
 
-    if Niter == 100:
-        return B, False
+    if swap:
+        warn("LLL reduction has not converged in {:d} iterations".format(Niter))
 
     if not copysign(1, la.det(B)) == copysign(1, la.det(E)):
         B[:, 0] = -B[:, 0]
-- 
2.43.0


From 0c1aa7f2b2651c5045fac486b194097a356f11b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:24 +0000
Subject: [PATCH 14/56] fix: rotation about -x is not NaN, and units are
 compared by value

---
 structrans/util/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/structrans/util/utils.py b/structrans/util/utils.py
index c346d3f..6683bd9 100644
--- a/structrans/util/utils.py
+++ b/structrans/util/utils.py
@@ -59,7 +59,7 @@ def Euler(angles, order="ZXZ", unit="deg"):
         if a not in "XYZxyz":
             raise ValueError("unknown rotation axis {:s}", a)
         else:
-            angle = radians(angles[i]) if unit is "deg" else angles[i]
+            angle = radians(angles[i]) if unit == "deg" else angles[i]
             R = canonical_rotation[a.upper()](angle).dot(R)
     return R
 
@@ -71,8 +71,8 @@ def rotation(angle, axis, unit="deg"):
 
     a = axis if isinstance(axis, np.ndarray) else np.array(axis)
     z = a/la.norm(a)
-    t = radians(angle) if unit is "deg" else angle
-    if z.dot(np.array([1, 0, 0])) < 0.9:
+    t = radians(angle) if unit == "deg" else angle
+    if abs(z.dot(np.array([1, 0, 0]))) < 0.9:
         # z is not parallel to e1
         z1 = np.cross(z, np.array([1, 0, 0]))
         z2 = np.cross(z, z1)
-- 
2.43.0


From 02ac1ac193f382f7e0a492cc1f6b4985eb31861b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:24 +0000
Subject: [PATCH 15/56] fix: pos_def_sym() is False for anything but 3x3
 positive definite symmetric arrays

---
 structrans/util/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/structrans/util/utils.py b/structrans/util/utils.py
index 6683bd9..8f97e5f 100644
--- a/structrans/util/utils.py
+++ b/structrans/util/utils.py
@@ -5,15 +5,14 @@ def is_3_by_3(U):
     """
     U is a [3 x 3] matrix
     """
-    return isinstance(U, np.ndarray) and U.shape is not (3, 3)
+    return isinstance(U, np.ndarray) and U.shape == (3, 3)
 
 def pos_def_sym(U):
     """
     check if U is [3 x 3] positive definite and symmetric
     """
-    dU = (U - U.T).reshape(9)
     # return is_3_by_3(U) and la.det(U) > 0 and np.array_equal(U, U.T)
-    return is_3_by_3(U) and la.det(U) > 0 and la.norm(dU) < 1e-6
+    return bool(is_3_by_3(U) and la.norm(U - U.T) < 1e-6 and np.all(la.eigvalsh(U) > 0))
 
 def sort_eig(A):
     """
-- 
2.43.0


From 6c5d3570c94ad23103b0f486a1a33c3213790916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:24 +0000
Subject: [PATCH 16/56] fix: setU rejects indefinite matrices and a wrong
 number of arguments

---
 structrans/marttrans/martensite.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/structrans/marttrans/martensite.py b/structrans/marttrans/martensite.py
index bde6f1a..4b59907 100644
--- a/structrans/marttrans/martensite.py
+++ b/structrans/marttrans/martensite.py
@@ -41,13 +41,15 @@ class Martensite():
                 U = np.array([[args[0], args[1], 0], [args[1], args[0], 0], [0, 0, args[2]]])
             elif len(args) == 4:
                 U = np.array([[args[0], args[1], 0], [args[1], args[2], 0], [0, 0, args[3]]])
+            else:
+                raise TypeError()
         except:
             raise TypeError("unrecognizable input")
 
         if not np.array_equal(U, U.T):
             raise TypeError("not symmetric")
 
-        if not la.det(U) > 0:
+        if not np.all(la.eigvalsh(U) > 0):
             raise TypeError("not positive definite")
 
         return Martensite(U, self.getLaue())
-- 
2.43.0


From 2271e93ad6fa7c4270a79391ce4477cdbe6a3b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:24 +0000
Subject: [PATCH 17/56] fix: setLaue(5) gives the trigonal Laue group; alpha =
 120 is a degenerate cell

---
 structrans/marttrans/martensite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/martensite.py b/structrans/marttrans/martensite.py
index 4b59907..73aabf3 100644
--- a/structrans/marttrans/martensite.py
+++ b/structrans/marttrans/martensite.py
@@ -78,7 +78,7 @@ class Martensite():
         """
         latParam = [2, 2, 2,
                     [2, 3],
-                    [2, 120],
+                    [2, 80],
                     [1.41, 2], [1.41, 2],
                     [1.41, 1.42, 2], [1.41, 1.42, 2], [1.41, 1.42, 2], [1.41, 1.42, 2],
                     [1.41, 1.42, 2, 89], [1.41, 1.42, 2, 89],
-- 
2.43.0


From 890fb5f99ee42eadec21c8ddb13f743279c08ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:44 +0000
Subject: [PATCH 18/56] fix: Martensite and MatrixGroup do not share arrays
 with their callers

---
 structrans/crystallography/matrix_group.py | 2 +-
 structrans/marttrans/martensite.py         | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/structrans/crystallography/matrix_group.py b/structrans/crystallography/matrix_group.py
index 64e0d4b..e9a9fda 100644
--- a/structrans/crystallography/matrix_group.py
+++ b/structrans/crystallography/matrix_group.py
@@ -74,7 +74,7 @@ class MatrixGroup():
         # self.__mtable = self.isgroup(matrices)
         # if self.__mtable is False:
         #     raise ValueError("input does not form a group")
-        self.__mats = matrices
+        self.__mats = [np.array(m) for m in matrices]
 
 
     def matrices(self):
diff --git a/structrans/marttrans/martensite.py b/structrans/marttrans/martensite.py
index 73aabf3..f5a7e28 100644
--- a/structrans/marttrans/martensite.py
+++ b/structrans/marttrans/martensite.py
@@ -15,7 +15,7 @@ class Martensite():
     """
     
     def __init__(self, *args):
-        self.__U = args[0] if len(args) > 0 else None
+        self.__U = np.array(args[0]) if len(args) > 0 and args[0] is not None else None
         self.__Laue = args[1] if len(args) > 1 else CUBIC_LAUE_GROUP
         self.__Ulist = None
         self.__Laueidx = None
@@ -104,7 +104,7 @@ class Martensite():
         """
         if self.__Ulist is None:
             self.calcvariants()
-        return self.__Ulist
+        return self.__Ulist.copy()
 
     def getvariant(self, n):
         """
@@ -115,7 +115,7 @@ class Martensite():
         """
         if self.__Ulist is None:
             self.calcvariants()
-        return self.__Ulist[n - 1]
+        return self.__Ulist[n - 1].copy()
 
     def isreversible(self):
         """
@@ -137,7 +137,7 @@ class Martensite():
     def getLaueidx(self):
         if self.__Laueidx is None:
             self.calcvariants()
-        return self.__Laueidx
+        return self.__Laueidx.copy()
 
     def calcvariants(self):
         """
-- 
2.43.0


From eadb6a983fc005f8b0e7cd580c1ee569d9b440b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:44 +0000
Subject: [PATCH 19/56] fix: TwinSystem of a Martensite uses that Martensite's
 Laue group

---
 structrans/marttrans/twin.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 5cc9bb8..8da25e3 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -15,20 +15,22 @@ class TwinSystem():
         if len(args) == 1:
             if isinstance(args[0], Martensite):
                 self.__Ulist = args[0].getvariants()
+                self.__Laue = args[0].getLaue()
             else:
                 try:
                     self.__Ulist = np.array(args[0])
                 except:
                     raise ValueError("illegal construction parameters")
-            # self.__Laue = CUBIC_LAUE_GROUP.matrices()
-            self.__Laue = CUBIC_LAUE_GROUP
+                # self.__Laue = CUBIC_LAUE_GROUP.matrices()
+                self.__Laue = CUBIC_LAUE_GROUP
         elif len(args) >= 2:
             try:
                 self.__Ulist = np.array(args[0])
             except:
                 raise ValueError("illegal construction parameters")
-            if isinstance(args[1], MatrixGroup):
-                self.__Laue = args[1]
+            if not isinstance(args[1], MatrixGroup):
+                raise ValueError("illegal construction parameters")
+            self.__Laue = args[1]
         self.__N = len(self.__Ulist)    # Number of variants
         self.__twintable = None
         self.__twinpairs = None
-- 
2.43.0


From 3d25e82565808ea53d068b853148938a18f4a491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:44 +0000
Subject: [PATCH 20/56] fix: TwinPair does not share arrays with its callers

---
 structrans/marttrans/twin.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 8da25e3..bca7565 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -88,7 +88,7 @@ class TwinSystem():
         """
         if self.__twinpairs is None:
             self.TwinTable()
-        return self.__twinpairs
+        return list(self.__twinpairs)
 
     def getConventional(self):
         """
@@ -144,8 +144,8 @@ class TwinPair():
         if not skipcheck and (not util.utils.pos_def_sym(Ui) or not util.utils.pos_def_sym(Uj)):
             raise ValueError("Ui or Uj is not a 3 x 3 positive definite symmetric matrix")
 
-        self.__Ui = Ui
-        self.__Uj = Uj
+        Ui = self.__Ui = np.array(Ui)
+        Uj = self.__Uj = np.array(Uj)
 
         Uiinv = la.inv(Ui)
         self.__C = np.dot(Uiinv.dot(Uj), Uj.dot(Uiinv))
@@ -230,7 +230,7 @@ class TwinPair():
                     e = del1 * self.__Ui.dot(self.__v[0]) + del3 * self.__Ui.dot(self.__v[2])
                     ehat.append(e/la.norm(e))
             self.__ax = ehat
-        return self.__ax
+        return [e.copy() for e in self.__ax]
 
 
     def iscompound(self):
@@ -308,7 +308,7 @@ class TwinPair():
             else:
                 self.__twinparam = _solvetwin(self.__Ui, self.__Uj, None)
 
-        return self.__twinparam
+        return tuple(tuple(v.copy() for v in sol) for sol in self.__twinparam)
 
     def iscompatible(self, twintype="C"):
         """
-- 
2.43.0


From bd97a7d09f72179798baad733d802dfbb821565a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:07 +0000
Subject: [PATCH 21/56] fix: isconventional() answers for the group it is asked
 about, by its 180 degree rotations

---
 structrans/marttrans/twin.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index bca7565..b792478 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -152,7 +152,6 @@ class TwinPair():
         self.__e, self.__v = util.utils.sort_eig(self.__C)
 
         self.__twinnable = self.istwinnable()
-        self.__conventional = None
         self.__ax = None
         self.__XI = None
         self.__XII = None
@@ -194,17 +193,15 @@ class TwinPair():
         lauegroup is a MatrixGroup.
         :return:  if the twin pair is conventionally twinned
         """
-        if self.__conventional is None:
-            if not self.__twinnable:
-                return False
-            twofold = CUBIC_LAUE_GROUP.matrices()[1:10] if len(lauegroup) == 0 else lauegroup[0].matrices()
-            conventional = False
-            for Q in twofold:
-                if np.max(np.abs(Q.dot(self.__Ui).dot(Q.T) - self.__Uj)) < SMALL:
-                    conventional = True
-                    break
-            self.__conventional = conventional
-        return self.__conventional
+        if not self.__twinnable:
+            return False
+        group = CUBIC_LAUE_GROUP if len(lauegroup) == 0 else lauegroup[0]
+        # 180 degree rotations
+        twofold = [Q for Q in group.matrices() if abs(np.trace(Q) + 1) < 1E-6]
+        for Q in twofold:
+            if np.max(np.abs(Q.dot(self.__Ui).dot(Q.T) - self.__Uj)) < SMALL:
+                return True
+        return False
 
     def ax(self):
         """
-- 
2.43.0


From 1b75ad8864f2221d86f82623773b2b28a12978fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:07 +0000
Subject: [PATCH 22/56] fix: twinparam() solves the twinning equation for any
 pair it calls twinnable

---
 structrans/marttrans/twin.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index b792478..36e3386 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -395,12 +395,12 @@ def _solvetwin(U, Uj, e):
     """
     find the two solutions to the twinning equation
     """
-    if not e == None:
+    if e is not None:
         ehat = e/la.norm(e)
         Uinv = la.inv(U)
         R180 = -np.eye(3) + 2*np.outer(ehat, ehat)
         uj = np.dot(R180.dot(U), R180.T)
-        if _isvariant(U, uj):
+        if np.allclose(uj, Uj, atol=1E-6):
             n1 = e
             denominator = np.dot(np.dot(Uinv, e), np.dot(Uinv, e))
             a1 = 2 * (Uinv.dot(e)/denominator - U.dot(e))
@@ -416,18 +416,18 @@ def _solvetwin(U, Uj, e):
             a2 = np.round(rho * a2, 10)
             Q2 = (U + np.outer(a2, n2)).dot(la.inv(uj))
             return (Q1, a1, n1), (Q2, a2, n2)
-        else:
-            return None
-    else:
-        cmix = np.dot(la.inv(U).dot(Uj), Uj.dot(la.inv(U)))
-        (Q1, hat_a1, hat_n1), (Q2, hat_a2, hat_n2) = _solve_am(cmix)
-        rho1 = U.T.dot(hat_n1)
-        rho2 = U.T.dot(hat_n2)
-        n1 = U.T.dot(hat_n1)/rho1
-        a1 = rho1*hat_a1
-        n2 = U.T.dot(hat_n2)/rho2
-        a2 = rho2*hat_a2
-        return (Q1, a1, n1), (Q2, a2, n2)
+    # not related by a 180 degree rotation: solve for a general rank-1 connection
+    cmix = np.dot(la.inv(U).dot(Uj), Uj.dot(la.inv(U)))
+    (_, hat_a1, hat_n1), (_, hat_a2, hat_n2) = _solve_am(cmix)
+    rho1 = la.norm(U.T.dot(hat_n1))
+    rho2 = la.norm(U.T.dot(hat_n2))
+    n1 = U.T.dot(hat_n1)/rho1
+    a1 = rho1*hat_a1
+    n2 = U.T.dot(hat_n2)/rho2
+    a2 = rho2*hat_a2
+    Q1 = (U + np.outer(a1, n1)).dot(la.inv(Uj))
+    Q2 = (U + np.outer(a2, n2)).dot(la.inv(Uj))
+    return (Q1, a1, n1), (Q2, a2, n2)
 
 def _solve_f(U, a, n):
     """
-- 
2.43.0


From 3cf9ed12541b209e8197480f5697b35e4ab4c07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:04 +0000
Subject: [PATCH 23/56] fix: volume fractions require 1 to be the middle
 eigenvalue, not just an eigenvalue

---
 structrans/marttrans/twin.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 36e3386..ea7adf3 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -439,15 +439,20 @@ def _solve_f(U, a, n):
     minus_alpha = 2 * np.dot(U.dot(a), cofU.dot(n))
     beta = la.det(U.dot(U)-np.eye(3)) + minus_alpha / 4.0
 
+    def middle_is_one(f):
+        # det(C - I) = 0 only says that some eigenvalue of C is 1
+        Uf = U + f * np.outer(a, n)
+        return abs(la.eigvalsh(Uf.T.dot(Uf))[1] - 1) < 1E-4
+
     if abs(minus_alpha) < SMALL:
-        return 0
+        return 0 if middle_is_one(0) else None
     elif beta/minus_alpha > 0:
         f = 0.5 + math.sqrt(beta / minus_alpha)
         if abs(1 - f) < 1E-6:
-            return 1
+            return 1 if middle_is_one(1) else None
         elif abs(f) < 1E-6:
-            return 0
-        elif f > 0 and f < 1:
+            return 0 if middle_is_one(0) else None
+        elif f > 0 and f < 1 and middle_is_one(f):
             return f
         else:
             return None
-- 
2.43.0


From e6ef54840c023b2322d3a4bfb39819b565361107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:50 +0000
Subject: [PATCH 24/56] fix: habitplanes() skips the incompatible solution and
 honours the twin type

---
 structrans/marttrans/twin.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index ea7adf3..fed91d6 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -354,7 +354,7 @@ class TwinPair():
         if twintype not in ["I", "II", "C"]:
             raise ValueError("unknown twin type {:s}", str(twintype))
 
-        if not self.iscompatible():
+        if not self.iscompatible(twintype):
             raise AttributeError("twin pair is incompatible")
 
         tp = self.twinparam()
@@ -364,6 +364,8 @@ class TwinPair():
         hps = []
 
         for i, f in enumerate(fs):
+            if f is None or (twintype != "C" and i != ["I", "II"].index(twintype)):
+                continue
             a = tp[i][1]
             n = tp[i][2]
             Uf = [self.__Ui + f * np.outer(a, n),
-- 
2.43.0


From 3c58b5eefcc1dbabaa012245af5735d1ef2bf56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:44 +0000
Subject: [PATCH 25/56] fix: mat_math works on Python 3 and for every
 dimension; mat_trace starts from zero

---
 structrans/mat_math.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/structrans/mat_math.py b/structrans/mat_math.py
index 825debf..0aeede4 100644
--- a/structrans/mat_math.py
+++ b/structrans/mat_math.py
@@ -11,6 +11,11 @@ except:
 from numpy.linalg import inv, det
 import itertools
 
+try:
+    xrange
+except NameError:
+    xrange = range
+
 def mat_dot (la, lb):
     '''
     multiplying list of dxd matrices in the form of 1x9 vectors
@@ -32,7 +37,7 @@ def mat_trace (l):
     # dimension
     d = int(sqrt(len(l[0])))
     
-    tr = np.empty(len(l), dtype=l.dtype)    
+    tr = np.zeros(len(l), dtype=l.dtype)    
         
     for i in xrange(d):
         tr += l[:, i*d+i]
@@ -52,7 +57,7 @@ def mat_det (l):
         # calculate the minors
         s = (-1)**n # sign
         # remove the 0-th row and the n-th column
-        rm_idx = range(d)
+        rm_idx = list(range(d))
         rm_idx.extend([i*d+n for i in xrange(1,d)])
         # idx of the minors
         mn_idx = [i for i in xrange(d**2) if not i in rm_idx]
@@ -73,7 +78,7 @@ def mat_T(l):
     return T
 
 def mat_eig(l, MAX_MEM=1E9):
-    dim = sqrt(l.shape[1])    
+    dim = int(sqrt(l.shape[1]))
     eigs = np.empty((len(l),dim))    
     for i in xrange(len(l)):
         M = l[i].reshape(dim, dim)
@@ -108,7 +113,7 @@ def cofactor(A):
                 a = np.delete(A, i, axis=0)
                 a = np.delete(a, j, axis=1)
                 minor = np.append(minor, (-1)**(i+j)*det(a))
-        return np.array(minor).reshape(3,3)
+        return np.array(minor).reshape(m, n)
                 
     else:
         print('Please input a square matrix.')
-- 
2.43.0


From 4f4228f1f33256935e2ee86e85d14a5bfc983959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:44 +0000
Subject: [PATCH 26/56] fix: isCompatible() requires the middle eigenvalue to
 be 1, not at most 1

---
 structrans/marttrans/Compatibility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/Compatibility.py b/structrans/marttrans/Compatibility.py
index cfa3def..47f9128 100644
--- a/structrans/marttrans/Compatibility.py
+++ b/structrans/marttrans/Compatibility.py
@@ -18,7 +18,7 @@ def isCompatible(A, B):
     if isinstance(A, np.ndarray) and isinstance(B, np.ndarray):
         C = np.dot(inv(B.T).dot(A.T), A.dot(inv(B)))
         e, v = _math.eigSort(C)
-        if abs(e[1])-1<1e-5:
+        if abs(e[1] - 1) < 1e-5:
             return True
         else:
             return False
-- 
2.43.0


From 4f4eed0c0817e78bc91dd2f5932cb4b89075ded1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:44 +0000
Subject: [PATCH 27/56] fix: AM_Solver returns None instead of failing when all
 eigenvalues are on one side of 1

---
 structrans/marttrans/Compatibility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structrans/marttrans/Compatibility.py b/structrans/marttrans/Compatibility.py
index 47f9128..cebd188 100644
--- a/structrans/marttrans/Compatibility.py
+++ b/structrans/marttrans/Compatibility.py
@@ -45,8 +45,8 @@ def AM_Solver(A):
     
     
     c = sqrt(eval[2]-eval[0])
-    c1 = sqrt(1-eval[0])
-    c3 = sqrt(eval[2]-1)
+    c1 = sqrt(max(0, 1-eval[0]))
+    c3 = sqrt(max(0, eval[2]-1))
     
     if c < 1e-6:
         print('solution is b = e, m = - 2 e where |e| = 1.')
-- 
2.43.0


From 2573b40f079c9fdc95d55678ed49c974c05b3e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:44 +0000
Subject: [PATCH 28/56] fix: UnitCell can be constructed, in 2D and 3D

---
 structrans/crystallography/visualization.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/structrans/crystallography/visualization.py b/structrans/crystallography/visualization.py
index 3c93bc5..325303a 100644
--- a/structrans/crystallography/visualization.py
+++ b/structrans/crystallography/visualization.py
@@ -43,7 +43,7 @@ def bonds(verts):
 
         elif len(verts[0])==2:
             idx = [[0,1],[0,2],[1,3],[2,3]]
-            return np.array([[verts[i[0]], verts[i[1]]] for i in len(idx)])
+            return np.array([[verts[i[0]], verts[i[1]]] for i in idx])
         else:
             raise visualError('The number of vertices is not valid.')
     
@@ -108,7 +108,7 @@ class UnitCell():
         r'''
         Constructed by a Bravais lattice
         '''
-        self._lattice = BravaisLattice(lat_ID, lat_Params, N=3)
+        self._lattice = BravaisLattice(lat_ID, lat_Params, dim=N)
         self._o = np.array(origin)
         self._dim = N
     def setOrigin(self, new_origin):
@@ -130,7 +130,7 @@ class UnitCell():
 
         elif len(verts[0])==2:
             idx = [[0,1],[0,2],[1,3],[2,3]]
-            return np.array([[verts[i[0]], verts[i[1]]] for i in len(idx)])
+            return np.array([[verts[i[0]], verts[i[1]]] for i in idx])
         else:
             raise visualError('The number of vertices is not valid.')
         
@@ -149,7 +149,7 @@ class UnitCell():
         verts = vertex(self._o, self._lattice.getConventionalBase().T, self._dim)
         return self.bonds(verts)
     def getPrimitivebonds(self):
-        verts = vertex(self._o, self._lattice.getBase().T, self._dim)
+        verts = vertex(self._o, self._lattice.getbase().T, self._dim)
         return self.bonds(verts)
     def copyTo(self, new_origin, v_list):
 #         verts = self.getConventional()
-- 
2.43.0


From ddcfe429d6645b88c52cb1f1ea84811300f900f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:44 +0000
Subject: [PATCH 29/56] fix: strain distance of a perfect match is 0 in 2D too

---
 structrans/marttrans/lat_cor/dist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/dist.py b/structrans/marttrans/lat_cor/dist.py
index 08668e7..783e750 100644
--- a/structrans/marttrans/lat_cor/dist.py
+++ b/structrans/marttrans/lat_cor/dist.py
@@ -21,7 +21,7 @@ def strain_dist(x, E1, E2inv):
     Cinv = np.dot(Finv, Finv.T)
     lam = np.real(la.eig(Cinv)[0])
     slam = np.sqrt(lam)
-    return np.sum(lam) - 2*np.sum(slam) + 3
+    return np.sum(lam) - 2*np.sum(slam) + dim
 
 
 def Cauchy_dist(x, E1, E2inv):
-- 
2.43.0


From ea9ee6b2cb252e4b914a1a391fb2f149e6c9ae37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:06 +0000
Subject: [PATCH 30/56] fix: resuming the vector enumeration no longer skips
 vectors

---
 structrans/marttrans/lat_cor/main_direct.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/main_direct.py b/structrans/marttrans/lat_cor/main_direct.py
index 7c16a6c..ebcd38a 100644
--- a/structrans/marttrans/lat_cor/main_direct.py
+++ b/structrans/marttrans/lat_cor/main_direct.py
@@ -33,6 +33,8 @@ def vec_generator(maxlen, dim, x0=None):
                 v = [firstDigit] * dim
                 v[1:] = subvec[:]
                 yield v
+            # only the first block resumes inside x0, the following ones are complete
+            xs = None
             if firstDigit > 0:
                 g = vec_generator(np.sqrt(max(0, maxlen**2 - firstDigit**2)), dim - 1, xs)
                 for subvec in g:
@@ -40,7 +42,6 @@ def vec_generator(maxlen, dim, x0=None):
                     v[1:] = subvec[:]
                     yield v
             firstDigit = abs(firstDigit) + 1
-            xs = None
 
 
 def lat_cor(brava, pa, bravm, pm, **kwargs):
-- 
2.43.0


From 8578c392c2afa2dd1ceedbf765e75309f8f55660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:06 +0000
Subject: [PATCH 31/56] fix: resuming the vector enumeration stays within the
 (smaller) radius

---
 structrans/marttrans/lat_cor/main_direct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structrans/marttrans/lat_cor/main_direct.py b/structrans/marttrans/lat_cor/main_direct.py
index ebcd38a..6af5430 100644
--- a/structrans/marttrans/lat_cor/main_direct.py
+++ b/structrans/marttrans/lat_cor/main_direct.py
@@ -19,7 +19,7 @@ def vec_generator(maxlen, dim, x0=None):
         x0 = [0] * dim
     if dim == 1:
         n = x0[0]
-        while n <= maxlen:
+        while abs(n) <= maxlen:
             yield [n]
             if n > 0:
                 yield [-n]
@@ -27,7 +27,7 @@ def vec_generator(maxlen, dim, x0=None):
     else:
         firstDigit = x0[0]
         xs = x0[1:]
-        while firstDigit <= maxlen:
+        while abs(firstDigit) <= maxlen:
             g = vec_generator(np.sqrt(max(0, maxlen**2 - firstDigit**2)), dim - 1, xs)
             for subvec in g:
                 v = [firstDigit] * dim
-- 
2.43.0


From 8d9501fdeed6601c29c6efecf8282cb7c137bcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:06 +0000
Subject: [PATCH 32/56] fix: direct search ends normally when its last slice
 improves a solution

---
 structrans/marttrans/lat_cor/main_direct.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/main_direct.py b/structrans/marttrans/lat_cor/main_direct.py
index 6af5430..b874c68 100644
--- a/structrans/marttrans/lat_cor/main_direct.py
+++ b/structrans/marttrans/lat_cor/main_direct.py
@@ -222,7 +222,9 @@ def lat_cor(brava, pa, bravm, pm, **kwargs):
             updated, SOLS, EXT_SOLS, DMAX = update_sol(ary, SOLS, EXT_SOLS, DMAX)
             if updated:
                 maxRadius = rmax(DMAX)
-                checkpoint = np.array(next(g))
+                checkpoint = next(g, None)
+                # nothing left to search if the last slice was the one updated
+                updated = checkpoint is not None
                 break
             else:
                 ary = np.array(list(itertools.islice(g, slice_sz)))
-- 
2.43.0


From 7b6af4641aea75683493b5fbacc2593243bb2e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:52 +0000
Subject: [PATCH 33/56] fix: direct search always finds starting points

---
 structrans/marttrans/lat_cor/main_direct.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/structrans/marttrans/lat_cor/main_direct.py b/structrans/marttrans/lat_cor/main_direct.py
index b874c68..3fab56d 100644
--- a/structrans/marttrans/lat_cor/main_direct.py
+++ b/structrans/marttrans/lat_cor/main_direct.py
@@ -192,12 +192,18 @@ def lat_cor(brava, pa, bravm, pm, **kwargs):
     EXT_SOLS = set()
     DMAX = float('inf')
 
+    spread = 1
     for _ in xrange(20 * nsol):
-        shift = np.random.random_integers(-1, 1, (dim, dim))
+        shift = np.random.random_integers(-spread, spread, (dim, dim))
         L = L0 + shift
         l = L.reshape(dim**2)
+        ntry = 0
         while tuple(l) in EXT_SOLS or not (1 - vol_th < la.det(L0 + shift) < 1 + vol_th):
-            shift = np.random.random_integers(-1, 1, (dim, dim))
+            # there may be no (new) starting point so close to L0
+            ntry += 1
+            if ntry % 1000 == 0:
+                spread += 1
+            shift = np.random.random_integers(-spread, spread, (dim, dim))
             L = L0 + shift
             l = L.reshape(dim**2)
         sol = {'l': l, 'd': dist(l)}
-- 
2.43.0


From 7b1c5b945292ddb3e836090728f42e0b9a5425f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:00 +0000
Subject: [PATCH 34/56] fix: direct search never takes a singular matrix for a
 correspondence

---
 structrans/marttrans/lat_cor/main_direct.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/main_direct.py b/structrans/marttrans/lat_cor/main_direct.py
index 3fab56d..7543a69 100644
--- a/structrans/marttrans/lat_cor/main_direct.py
+++ b/structrans/marttrans/lat_cor/main_direct.py
@@ -160,7 +160,8 @@ def lat_cor(brava, pa, bravm, pm, **kwargs):
         if not tuple(sol['l']) in ext_sols:
             # insert the solution and update EXT_SOLS
             idx = np.searchsorted([s['d'] for s in sols], sol['d'])
-            if la.det(sol['l'].reshape(dim, dim)) != 0:
+            # determinant of an integer matrix, up to rounding errors
+            if abs(la.det(sol['l'].reshape(dim, dim))) > 0.5:
                 sols.insert(idx, sol)
             ext_sols = ext_sols.union(eqlatcor(sol['l']))
             if len(sols) > nsol:
-- 
2.43.0


From eba05d0f21af9c7662ce25e47b8e2bc7f639f17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:22 +0000
Subject: [PATCH 35/56] fix: the transvection tree works in 2D

---
 structrans/marttrans/lat_cor/slnode.py | 29 +++++++++++++++-----------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/structrans/marttrans/lat_cor/slnode.py b/structrans/marttrans/lat_cor/slnode.py
index 45bac87..1ec9eee 100644
--- a/structrans/marttrans/lat_cor/slnode.py
+++ b/structrans/marttrans/lat_cor/slnode.py
@@ -5,16 +5,20 @@ class SLNode:
     """Tree structure of GL(n,Z) group"""
 
     dim = 3
-    # all 12 transvectives in the form of a 6x2 array of matrices
-    T1 = np.array([np.eye(3, dtype="int")
-                   + np.tensordot(np.eye(3, dtype="int")[i], np.eye(3, dtype="int")[j], axes=0)
-                   for i in xrange(3) for j in xrange(3) if i != j])
-    T2 = np.array([np.eye(3, dtype="int")
-                   - np.tensordot(np.eye(3, dtype="int")[i], np.eye(3, dtype="int")[j], axes=0)
-                   for i in xrange(3) for j in xrange(3) if i != j])
-    _T = np.append(T1, T2, axis=0)
+    # all the transvectives of each dimension, the inverses (T2) in the second half
+    T1 = dict((d, np.array([np.eye(d, dtype="int")
+                            + np.tensordot(np.eye(d, dtype="int")[i], np.eye(d, dtype="int")[j], axes=0)
+                            for i in xrange(d) for j in xrange(d) if i != j])) for d in (2, 3))
+    T2 = dict((d, np.array([np.eye(d, dtype="int")
+                            - np.tensordot(np.eye(d, dtype="int")[i], np.eye(d, dtype="int")[j], axes=0)
+                            for i in xrange(d) for j in xrange(d) if i != j])) for d in (2, 3))
     onetotwo = [(i, j) for i in xrange(3) for j in xrange(3) if i != j]
 
+    @classmethod
+    def transvectives(cls):
+        """all the transvectives of the current dimension"""
+        return np.append(cls.T1[cls.dim], cls.T2[cls.dim], axis=0)
+
     def __init__(self, elem, cache, parent=None, grandpa=None):
         """
         constructed by node element
@@ -33,14 +37,15 @@ class SLNode:
         generate children nodes
         """
         nobacktrans = []
-        for i in xrange(len(SLNode._T)):
+        T = SLNode.transvectives()
+        for i in xrange(len(T)):
             if SLNode.dim != 3 or (
                 not SLNode.gobacktoparent(i, self.parent) and
                 not SLNode.gobacktouncle(i, self.parent, self.grandpa) and
                 not SLNode.gobacktosibling(i, self.parent)
             ):
                 nobacktrans.append(i)
-        return ((j, self.elem.dot(SLNode._T[j])) for j in nobacktrans)
+        return ((j, self.elem.dot(T[j])) for j in nobacktrans)
 
 
     @classmethod
@@ -89,7 +94,7 @@ class SLNode:
 
     def calc_neighbor_dist(self):
         """distance values of neighbors"""
-        nb = (self.elem.dot(t) for t in SLNode._T)
+        nb = (self.elem.dot(t) for t in SLNode.transvectives())
         return (SLNode.cache_dist(c, self.cache) for c in nb)
 
     def steepest_des(self):
@@ -100,7 +105,7 @@ class SLNode:
             if nbdist - self.elem_dist < dmin:
                 nbmin = i
                 dmin = nbdist - self.elem_dist
-        return SLNode(self.elem.dot(SLNode._T[nbmin]), self.cache) if dmin < 0 else None
+        return SLNode(self.elem.dot(SLNode.transvectives()[nbmin]), self.cache) if dmin < 0 else None
 
     def is_min(self):
         return all(list(self.calc_neighbor_dist()) >= self.elem_dist)
-- 
2.43.0


From 2b7e7b896fe522b49b78ccb18314e84eee58eb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:43 +0000
Subject: [PATCH 36/56] fix: the transvection tree prunes only moves that lead
 to matrices it visits anyway

---
 structrans/marttrans/lat_cor/slnode.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/structrans/marttrans/lat_cor/slnode.py b/structrans/marttrans/lat_cor/slnode.py
index 1ec9eee..c6136ff 100644
--- a/structrans/marttrans/lat_cor/slnode.py
+++ b/structrans/marttrans/lat_cor/slnode.py
@@ -63,12 +63,12 @@ class SLNode:
     @classmethod
     def gobacktoparent(cls, child, parent):
         N = SLNode.dim * (SLNode.dim - 1)
-        return False if parent is None else child == (parent + N) % N
+        return False if parent is None else child == (parent + N) % (2 * N)
 
     @classmethod
     def gobacktouncle(cls, child, parent, grandpa):
         """
-        [Tij, Tjk] = Tik => Tij Tjk = Tik Tjk Tij
+        [Tij, Tjk] = Tik => Tij Tjk Tik^-1 = Tjk Tij
         """
         if parent is None or grandpa is None:
             return False
@@ -77,12 +77,14 @@ class SLNode:
             ic, kc = SLNode.onetotwo[child % N]
             jp, kp = SLNode.onetotwo[parent % N]
             ig, jg = SLNode.onetotwo[grandpa % N]
-            return ic == ig and jg == jp and kp == kc
+            # indices of the inverses are not less than N
+            inverses = [t for t in (child, parent, grandpa) if t >= N]
+            return ic == ig and jg == jp and kp == kc and len(inverses) % 2 == 1
 
     @classmethod
     def gobacktosibling(cls, child, parent):
         """
-        [Tij Tkl] = 1 =>
+        [Tij Tkl] = 1 if j != k and i != l => Tij Tkl = Tkl Tij
         """
         if parent is None:
             return False
@@ -90,7 +92,7 @@ class SLNode:
             N = SLNode.dim * (SLNode.dim - 1)
             i, j = SLNode.onetotwo[child % N]
             k, l = SLNode.onetotwo[parent % N]
-            return (i, j) > (k, l)
+            return (i, j) > (k, l) and j != k and i != l
 
     def calc_neighbor_dist(self):
         """distance values of neighbors"""
-- 
2.43.0


From 71bcc9095a6f018510b195c69e9bfabe4eaf76bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:43 +0000
Subject: [PATCH 37/56] fix: merging solutions keeps the best nsol whatever
 order the HNFs finish in

---
 structrans/marttrans/lat_cor/main_hnf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/main_hnf.py b/structrans/marttrans/lat_cor/main_hnf.py
index 925f120..c15d09c 100644
--- a/structrans/marttrans/lat_cor/main_hnf.py
+++ b/structrans/marttrans/lat_cor/main_hnf.py
@@ -225,7 +225,7 @@ def lat_cor(ibrava, pbrava, ibravm, pbravm, **kwargs):
                 add_sol(sols, s)
         else:
             for s in xrange(len(new)):
-                if new[s]['d'] <= sols[-1]['d']:
+                if len(sols) < nsol or new[s]['d'] <= sols[-1]['d']:
                     add_sol(sols, new[s])
                 else:
                     return
-- 
2.43.0


From 2f1cfc1df718a1f84a1a2523b71cbcf088ada2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:43 +0000
Subject: [PATCH 38/56] fix: HNF search falls back to the nearest sublattice
 size, as an integer

---
 structrans/marttrans/lat_cor/main_hnf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/main_hnf.py b/structrans/marttrans/lat_cor/main_hnf.py
index c15d09c..98bc286 100644
--- a/structrans/marttrans/lat_cor/main_hnf.py
+++ b/structrans/marttrans/lat_cor/main_hnf.py
@@ -135,7 +135,7 @@ def lat_cor(ibrava, pbrava, ibravm, pbravm, **kwargs):
         math.floor((1+vol_th)*r)+1,   # upper bound
         dtype='int')
     if len(vf) == 0:
-        vf = (np.round(r),)     
+        vf = (max(1, int(np.round(r))),)
 
     hnfs = [h for i in vf for h in HermiteNormalForms(i, dim)]
 
-- 
2.43.0


From e860ae373b74b127beb15cf4857c623ee100a506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:43 +0000
Subject: [PATCH 39/56] fix: reduce_hnfs accepts the arguments reduce_hnfs_par
 passes to it

---
 structrans/marttrans/lat_cor/main_hnf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/main_hnf.py b/structrans/marttrans/lat_cor/main_hnf.py
index 98bc286..05f4946 100644
--- a/structrans/marttrans/lat_cor/main_hnf.py
+++ b/structrans/marttrans/lat_cor/main_hnf.py
@@ -19,7 +19,7 @@ def reduce_hnfs(args):
     """
     hnfs = args[0]
     lg = args[1]
-    lprint = args[2] # if len(args) > 2 else print
+    lprint = args[2] if len(args) > 2 else lambda msg: None
     lprint("Reducing {:d} HNFs ...".format(len(hnfs)))
     rhnfs = {}
     for i, h in enumerate(hnfs):
-- 
2.43.0


From 11e047a50fc5290426c3bb879877f1bb0df571ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:43 +0000
Subject: [PATCH 40/56] fix: SLNode.is_min() compares the neighbours one by one

---
 structrans/marttrans/lat_cor/slnode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/slnode.py b/structrans/marttrans/lat_cor/slnode.py
index c6136ff..f31cdda 100644
--- a/structrans/marttrans/lat_cor/slnode.py
+++ b/structrans/marttrans/lat_cor/slnode.py
@@ -110,7 +110,7 @@ class SLNode:
         return SLNode(self.elem.dot(SLNode.transvectives()[nbmin]), self.cache) if dmin < 0 else None
 
     def is_min(self):
-        return all(list(self.calc_neighbor_dist()) >= self.elem_dist)
+        return all(d >= self.elem_dist for d in self.calc_neighbor_dist())
 
     def copy(self, that):
         self.elem = that.elem
-- 
2.43.0


From 4f525c2b22e4f7e2e7b84f0465c276b380d148ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:19 +0000
Subject: [PATCH 41/56] fix: hassubgroup() is False for a group of another
 dimension

---
 structrans/crystallography/matrix_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/crystallography/matrix_group.py b/structrans/crystallography/matrix_group.py
index e9a9fda..3ce4ab8 100644
--- a/structrans/crystallography/matrix_group.py
+++ b/structrans/crystallography/matrix_group.py
@@ -127,7 +127,7 @@ class MatrixGroup():
         for m1 in g.matrices():
             found = False
             for m2 in self.matrices():
-                if np.allclose(m1, m2):
+                if m1.shape == m2.shape and np.allclose(m1, m2):
                     found = True
                     break
             if not found:
-- 
2.43.0


From bbf7ac054bda4999e555adfff51fe0a4db1732b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:49 +0000
Subject: [PATCH 42/56] fix: setU raises TypeError for input that is not a
 finite real 3 x 3 matrix

---
 structrans/marttrans/martensite.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structrans/marttrans/martensite.py b/structrans/marttrans/martensite.py
index f5a7e28..934725c 100644
--- a/structrans/marttrans/martensite.py
+++ b/structrans/marttrans/martensite.py
@@ -46,6 +46,9 @@ class Martensite():
         except:
             raise TypeError("unrecognizable input")
 
+        if U.shape != (3, 3) or np.iscomplexobj(U) or not np.all(np.isfinite(U)):
+            raise TypeError("not a real 3 x 3 matrix")
+
         if not np.array_equal(U, U.T):
             raise TypeError("not symmetric")
 
-- 
2.43.0


From 8e3c526eb4e2fe605f50b8911ee40e8305b1efa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:28 +0000
Subject: [PATCH 43/56] fix: sublattice search with a volume threshold of 100%
 or more only uses positive sublattice sizes

---
 structrans/marttrans/lat_cor/main_hnf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/main_hnf.py b/structrans/marttrans/lat_cor/main_hnf.py
index 05f4946..129237c 100644
--- a/structrans/marttrans/lat_cor/main_hnf.py
+++ b/structrans/marttrans/lat_cor/main_hnf.py
@@ -131,7 +131,7 @@ def lat_cor(ibrava, pbrava, ibravm, pbravm, **kwargs):
     # find all the sizes of sublattices corresponding to 
     # volume changes less than the threshold "vol_th"
     vf = np.arange(
-        math.ceil((1-vol_th)*r),      # lower bound
+        max(1, math.ceil((1-vol_th)*r)),  # lower bound, sublattices have a positive size
         math.floor((1+vol_th)*r)+1,   # upper bound
         dtype='int')
     if len(vf) == 0:
-- 
2.43.0


From 2403c3f41698ce793de34a220df282b49ef93ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:17 +0000
Subject: [PATCH 44/56] fix: lat_opt keeps the closest of equivalent
 correspondences under the Ericksen distance

---
 structrans/marttrans/lat_cor/lat_opt.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/structrans/marttrans/lat_cor/lat_opt.py b/structrans/marttrans/lat_cor/lat_opt.py
index 0f25afb..ee78201 100644
--- a/structrans/marttrans/lat_cor/lat_opt.py
+++ b/structrans/marttrans/lat_cor/lat_opt.py
@@ -132,8 +132,9 @@ def lat_opt(E1, E2r, **kwargs):
     EXT_SOLS = {}
 
     def ext_sols(l):
+        d = dist(l)
         for c in (q1.dot(l).dot(q2) for q1 in LG1 for q2 in SOLG2):
-            EXT_SOLS[c.tostring()] = True
+            EXT_SOLS[c.tostring()] = d
 
     def truncate_sols():
         global dopt, lopt
@@ -145,8 +146,16 @@ def lat_opt(E1, E2r, **kwargs):
     # update strategy
     def update_solutions(tree):
         global dopt, lopt
+        known = tree.elem.tostring() in EXT_SOLS
+        if known and tree.elem_dist < EXT_SOLS[tree.elem.tostring()] * (1 - 1E-9):
+            # Ericksen distances of equivalent l's may differ, keep the closest l
+            eqs = set(q1.dot(tree.elem).dot(q2).tostring() for q1 in LG1 for q2 in SOLG2)
+            kept = [i for i, l in enumerate(lopt) if l.tostring() not in eqs]
+            dopt = [dopt[i] for i in kept]
+            lopt = [lopt[i] for i in kept]
+            known = False
         # otherwise, update existing solutions
-        if len(dopt) > 0 and tree.elem.tostring() not in EXT_SOLS:
+        if len(dopt) > 0 and not known:
             for i, d in enumerate(dopt):
                 if tree.elem_dist <= d:
                     dopt.insert(i, tree.elem_dist)
-- 
2.43.0


From 802bf3b1d23c317cb075b233f3b34cbd73039c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:19 +0000
Subject: [PATCH 45/56] fix: TwinPair.ax() reports only axes of 180 degree
 rotations that relate the variants

---
 structrans/marttrans/twin.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index fed91d6..68ecc17 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -225,7 +225,10 @@ class TwinPair():
                     del1 = math.sqrt(2*(A_11 + s * math.sqrt(self.__e[2])*A_13))
                     del3 = s * math.sqrt(self.__e[2]) * del1
                     e = del1 * self.__Ui.dot(self.__v[0]) + del3 * self.__Ui.dot(self.__v[2])
-                    ehat.append(e/la.norm(e))
+                    e = e/la.norm(e)
+                    R = 2 * np.outer(e, e) - np.eye(3)
+                    if np.max(np.abs(R.dot(self.__Ui).dot(R) - self.__Uj)) < 1E-6:
+                        ehat.append(e)
             self.__ax = ehat
         return [e.copy() for e in self.__ax]
 
-- 
2.43.0


From b4b13bbcde31d145ee91b936e36fa5acb44070e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:19 +0000
Subject: [PATCH 46/56] fix: XI and XII raise AttributeError for a pair without
 a twin axis

---
 structrans/marttrans/twin.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 68ecc17..2f8b50c 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -261,6 +261,8 @@ class TwinPair():
         """
         if self.iscompound():
             raise AttributeError("parameter X_I is not defined for compound twins")
+        if len(self.ax()) == 0:
+            raise AttributeError("no 180 degree rotation relates the variants")
         if self.__XI is None:
             t_ax = self.ax()[0]
             self.__XI = la.norm(la.inv(self.__Ui).dot(t_ax))
@@ -273,6 +275,8 @@ class TwinPair():
         """
         if self.iscompound():
             raise AttributeError("parameter X_I is not defined for compound twins")
+        if len(self.ax()) == 0:
+            raise AttributeError("no 180 degree rotation relates the variants")
         if self.__XII is None:
             t_ax = self.ax()[0]
             self.__XII = la.norm(self.__Ui.dot(t_ax))
-- 
2.43.0


From e16a18729bfb005a3a346ce4b9cb602b594b54a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:50 +0000
Subject: [PATCH 47/56] fix: mat_dot multiplies integer matrices by float
 matrices

---
 structrans/mat_math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/mat_math.py b/structrans/mat_math.py
index 0aeede4..25283c0 100644
--- a/structrans/mat_math.py
+++ b/structrans/mat_math.py
@@ -22,7 +22,7 @@ def mat_dot (la, lb):
     the dimension of la and lb are both [N x d**2]
     '''
     d = int(sqrt(len(la[0]))) # dimension
-    lc = np.zeros_like(la)
+    lc = np.zeros_like(la, dtype=np.result_type(la, lb))
     
     for i in xrange(d):
         for j in xrange(d):
-- 
2.43.0


From 1c2490211c32c0e9fd5717c4115df5fd83fdbf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:50 +0000
Subject: [PATCH 48/56] fix: unique_rows does not tell 0.0 from -0.0

---
 structrans/mat_math.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structrans/mat_math.py b/structrans/mat_math.py
index 25283c0..3659342 100644
--- a/structrans/mat_math.py
+++ b/structrans/mat_math.py
@@ -86,7 +86,8 @@ def mat_eig(l, MAX_MEM=1E9):
     return eigs    
 
 def unique_rows(a):
-    b = np.ascontiguousarray(a).view(np.dtype((np.void, a.dtype.itemsize * a.shape[1])))
+    b = np.ascontiguousarray(a + 0)     # -0.0 is 0.0
+    b = b.view(np.dtype((np.void, b.dtype.itemsize * b.shape[1])))
     _, idx = np.unique(b, return_index=True)
     return a[idx], idx
     
-- 
2.43.0


From 19c950d5fbf08bd18370ffb11cab2a175d3c6653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:38 +0000
Subject: [PATCH 49/56] fix: the stretch of a correspondence came out complex
 when principal stretches coincide

---
 structrans/marttrans/lat_cor/main_direct.py | 2 +-
 structrans/marttrans/lat_cor/main_hnf.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/structrans/marttrans/lat_cor/main_direct.py b/structrans/marttrans/lat_cor/main_direct.py
index 7543a69..db8e451 100644
--- a/structrans/marttrans/lat_cor/main_direct.py
+++ b/structrans/marttrans/lat_cor/main_direct.py
@@ -250,7 +250,7 @@ def lat_cor(brava, pa, bravm, pm, **kwargs):
         # Cauchy-Born deformation gradient: F.EA.H.L = EM
         F = np.dot(E_M, la.inv(np.dot(E_A, sol['l'])))
         C = np.dot(F.T, F)
-        [lams, V] = la.eig(C)  # spectrum decomposition
+        [lams, V] = la.eigh(C)  # spectrum decomposition
         lams = np.sqrt(np.real(lams))
         U = np.dot(np.dot(V, np.diag(lams)), la.inv(V))
         sol['u'] = U[:]
diff --git a/structrans/marttrans/lat_cor/main_hnf.py b/structrans/marttrans/lat_cor/main_hnf.py
index 129237c..ce8b3c3 100644
--- a/structrans/marttrans/lat_cor/main_hnf.py
+++ b/structrans/marttrans/lat_cor/main_hnf.py
@@ -281,7 +281,7 @@ def lat_cor(ibrava, pbrava, ibravm, pbravm, **kwargs):
         # Cauchy-Born deformation gradient: F.EA.H.L = EM
         F = np.dot(E_M, la.inv(np.dot(E_A, np.dot(sol['h'], sol['l']))))
         C = np.dot(F.T, F)
-        [lams, V] = la.eig(C)  # spectrum decomposition
+        [lams, V] = la.eigh(C)  # spectrum decomposition
         lams = np.sqrt(np.real(lams))
         U = np.dot(np.dot(V, np.diag(lams)), la.inv(V))
         sol['u'] = copy.copy(U)
-- 
2.43.0


From 06fe4d98ef29448298b904663eb9b5d23df4e919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:06 +0000
Subject: [PATCH 50/56] fix: lattices in far sheared bases equal lattices that
 differ by a fraction of the shear

---
 structrans/crystallography/lattice.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index 6d110ad..e46cc26 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -77,8 +77,7 @@ class Lattice():
             return False
         if M.shape != (self.__N, self.__N):
             return False
-        M_int = np.rint(M)
-        if not np.allclose(M, M_int, atol=1E-8):
+        if not _near_int(M):
             return False
         # QE = EM
         E = self.base()
@@ -183,7 +182,7 @@ class Lattice():
         A = np.dot(la.inv(E1), E2)
         A_int = np.rint(A)
         # A must be a change of basis, otherwise `other` is only a sublattice
-        return np.allclose(A, A_int, atol=1E-8) and bool(abs(abs(la.det(A_int)) - 1) < 0.5)
+        return _near_int(A) and bool(abs(abs(la.det(A_int)) - 1) < 0.5)
 
     def __str__(self):
         des_str = '{:d} dimensional lattice:'.format(self.__N)
@@ -198,6 +197,11 @@ def _is_square_mat(M):
     return (M.ndim == 2) and (M.shape[0] == M.shape[1])
 
 
+def _near_int(A):
+    # the deviation must stay a small part of 1, however large the integers are
+    return bool(np.all(np.abs(A - np.rint(A)) <= np.minimum(1E-8 + 1E-5 * np.abs(A), 1E-4)))
+
+
 def _in_O3(Q):
     Q = np.array(Q)
     if not _is_square_mat(Q):
-- 
2.43.0


From b8a0543717327f2b42f06b280f1d92c13bd1fb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:06 +0000
Subject: [PATCH 51/56] fix: hassubgroup() ignores differences of elements with
 large entries

---
 structrans/crystallography/matrix_group.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structrans/crystallography/matrix_group.py b/structrans/crystallography/matrix_group.py
index 3ce4ab8..cb5552a 100644
--- a/structrans/crystallography/matrix_group.py
+++ b/structrans/crystallography/matrix_group.py
@@ -127,7 +127,8 @@ class MatrixGroup():
         for m1 in g.matrices():
             found = False
             for m2 in self.matrices():
-                if m1.shape == m2.shape and np.allclose(m1, m2):
+                # the difference must stay small, however large the entries are
+                if m1.shape == m2.shape and np.all(np.abs(m1 - m2) <= np.minimum(1E-8 + 1E-5 * np.abs(m2), 1E-4)):
                     found = True
                     break
             if not found:
-- 
2.43.0


From c5b45d74c77602a91631af1df78f60d418fecc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:31 +0000
Subject: [PATCH 52/56] fix: HNFDecomposition() overflows or loses digits on
 the way for larger integer matrices

---
 structrans/crystallography/hnf.py        | 28 +++++++++++++++++-------
 structrans/crystallography/sublattice.py | 28 +++++++++++++++++-------
 2 files changed, 40 insertions(+), 16 deletions(-)

diff --git a/structrans/crystallography/hnf.py b/structrans/crystallography/hnf.py
index 92f34f6..e1b730d 100644
--- a/structrans/crystallography/hnf.py
+++ b/structrans/crystallography/hnf.py
@@ -80,12 +80,17 @@ def __gcd_cols(Min, c1, c2):
         M = __swap_cols(M, c1, c2)
 
     while M[0, c2] != 0:
-        t = int(math.floor(M[0, c1]/M[0, c2]))
+        t = M[0, c1] // M[0, c2]
         M = __add_col(M, c1, c2, -t)
         M = __swap_cols(M, c1, c2)
 
     return M
 
+def __fit(H, dtype):
+    """exact integers as machine numbers, if they fit"""
+    lim = np.iinfo(dtype).max if dtype.kind == 'i' else 2 ** 53
+    return H.astype(dtype) if all(abs(e) < lim for e in H.flatten()) else H
+
 def hnfd(M, onlyH=False):
     """
     Hermite normal form decomposition
@@ -95,12 +100,15 @@ def hnfd(M, onlyH=False):
     :return H:  the Hermite normal form, :py:class:`numpy.ndarray`
     :return L:  the transformation matrix :py:class:`numpy.ndarray`
     """
-    H = np.array(M)
+    # exact integers, the columns may leave the range of machine integers on the way
+    dtype = np.result_type(np.array(M), 'int8')
+    M = np.array([[int(round(e)) for e in row] for row in M], dtype=object)
+    H = M.copy()
     if H.shape[1] == 1:
         if H[0, 0] > 0:
-            return H if onlyH else (H, np.eye(1, dtype='int'))
+            return __fit(H, dtype) if onlyH else (__fit(H, dtype), np.eye(1, dtype='int'))
         else:
-            return -H if onlyH else (-H, -np.eye(1, dtype='int'))
+            return __fit(-H, dtype) if onlyH else (__fit(-H, dtype), -np.eye(1, dtype='int'))
     # first row non-negative
     H = __nonneg_row(H, 0)
     # make all but one element of first row zero
@@ -112,10 +120,14 @@ def hnfd(M, onlyH=False):
     # make sure H[i, i] is the greatest on row i
     for i in xrange(1, H.shape[0]):
         if H[i, 0] > 0:
-            H = __add_col(H, 0, i, -int(math.ceil(H[i, 0]/H[i, i])))
+            H = __add_col(H, 0, i, (-H[i, 0]) // H[i, i])
         if H[i, 0] <= - H[i, i]:
-            H = __add_col(H, 0, i, int(math.floor(-H[i, 0]/H[i, i])))
+            H = __add_col(H, 0, i, (-H[i, 0]) // H[i, i])
     if onlyH:
-        return H
+        return __fit(H, dtype)
     else:
-        return H, np.rint(la.inv(H).dot(np.array(M))).astype('int')
\ No newline at end of file
+        # H L = M by forward substitution
+        L = M.copy()
+        for i in xrange(H.shape[0]):
+            L[i] = (M[i] - sum(H[i, j] * L[j] for j in xrange(i))) // H[i, i]
+        return __fit(H, dtype), __fit(L, np.dtype('int'))
\ No newline at end of file
diff --git a/structrans/crystallography/sublattice.py b/structrans/crystallography/sublattice.py
index 92f34f6..e1b730d 100644
--- a/structrans/crystallography/sublattice.py
+++ b/structrans/crystallography/sublattice.py
@@ -80,12 +80,17 @@ def __gcd_cols(Min, c1, c2):
         M = __swap_cols(M, c1, c2)
 
     while M[0, c2] != 0:
-        t = int(math.floor(M[0, c1]/M[0, c2]))
+        t = M[0, c1] // M[0, c2]
         M = __add_col(M, c1, c2, -t)
         M = __swap_cols(M, c1, c2)
 
     return M
 
+def __fit(H, dtype):
+    """exact integers as machine numbers, if they fit"""
+    lim = np.iinfo(dtype).max if dtype.kind == 'i' else 2 ** 53
+    return H.astype(dtype) if all(abs(e) < lim for e in H.flatten()) else H
+
 def hnfd(M, onlyH=False):
     """
     Hermite normal form decomposition
@@ -95,12 +100,15 @@ def hnfd(M, onlyH=False):
     :return H:  the Hermite normal form, :py:class:`numpy.ndarray`
     :return L:  the transformation matrix :py:class:`numpy.ndarray`
     """
-    H = np.array(M)
+    # exact integers, the columns may leave the range of machine integers on the way
+    dtype = np.result_type(np.array(M), 'int8')
+    M = np.array([[int(round(e)) for e in row] for row in M], dtype=object)
+    H = M.copy()
     if H.shape[1] == 1:
         if H[0, 0] > 0:
-            return H if onlyH else (H, np.eye(1, dtype='int'))
+            return __fit(H, dtype) if onlyH else (__fit(H, dtype), np.eye(1, dtype='int'))
         else:
-            return -H if onlyH else (-H, -np.eye(1, dtype='int'))
+            return __fit(-H, dtype) if onlyH else (__fit(-H, dtype), -np.eye(1, dtype='int'))
     # first row non-negative
     H = __nonneg_row(H, 0)
     # make all but one element of first row zero
@@ -112,10 +120,14 @@ def hnfd(M, onlyH=False):
     # make sure H[i, i] is the greatest on row i
     for i in xrange(1, H.shape[0]):
         if H[i, 0] > 0:
-            H = __add_col(H, 0, i, -int(math.ceil(H[i, 0]/H[i, i])))
+            H = __add_col(H, 0, i, (-H[i, 0]) // H[i, i])
         if H[i, 0] <= - H[i, i]:
-            H = __add_col(H, 0, i, int(math.floor(-H[i, 0]/H[i, i])))
+            H = __add_col(H, 0, i, (-H[i, 0]) // H[i, i])
     if onlyH:
-        return H
+        return __fit(H, dtype)
     else:
-        return H, np.rint(la.inv(H).dot(np.array(M))).astype('int')
\ No newline at end of file
+        # H L = M by forward substitution
+        L = M.copy()
+        for i in xrange(H.shape[0]):
+            L[i] = (M[i] - sum(H[i, j] * L[j] for j in xrange(i))) // H[i, i]
+        return __fit(H, dtype), __fit(L, np.dtype('int'))
\ No newline at end of file
-- 
2.43.0


From 7df51f33125a5f1c0fa59953e8ef92fc021485cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:37 +0000
Subject: [PATCH 53/56] fix: stereo_proj near the zone axis

sin(theta) was computed from a value rounded to six digits: directions
within a degree of the zone axis were projected off by up to 25 percent.
---
 structrans/crystallography/stereogram.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structrans/crystallography/stereogram.py b/structrans/crystallography/stereogram.py
index f31e319..5bc2908 100644
--- a/structrans/crystallography/stereogram.py
+++ b/structrans/crystallography/stereogram.py
@@ -32,8 +32,8 @@ def stereo_proj(p, z):
 #         print c_theta*180/np.pi
 #         R_ps = R*sqrt(2*(1+c_theta))
 #         semi_theta = sqrt((c_theta + 1)/2)
-        sq_temp = round(1.0 - c_theta**2, 6)
-        sq_theta = sqrt(sq_temp)
+        # the perpendicular part itself, 1 - c_theta**2 loses its digits near the zone axis
+        sq_theta = sqrt(phat.dot(z_1)**2 + phat.dot(z_2)**2)
         if sq_theta<1e-6:
             return np.array([0,0])
         else:
-- 
2.43.0


From a562ef6d33ae01e9475921c847f6855ff961c066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:37 +0000
Subject: [PATCH 54/56] fix: stereo_proj folds short directions of the upper
 hemisphere

The fold compared p.z with 1e-6 whatever the length of p, so short vectors
slightly above the equator were mirrored to below it and projected outside
the circle.
---
 structrans/crystallography/stereogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/crystallography/stereogram.py b/structrans/crystallography/stereogram.py
index 5bc2908..675e47a 100644
--- a/structrans/crystallography/stereogram.py
+++ b/structrans/crystallography/stereogram.py
@@ -24,7 +24,7 @@ def stereo_proj(p, z):
         
     
     if norm(p)>1e-6:
-        if p.dot(z)>1e-6:
+        if p.dot(z)>0:
             phat = p/norm(p)
         else:
             phat = -(Q.dot(p))/norm(p)
-- 
2.43.0


From 2ebdd48a0b22b6cbaae3d92df71004b3c6c23320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:54 +0000
Subject: [PATCH 55/56] fix: volumefrac() finds no fraction for twins that
 satisfy the cofactor conditions

---
 structrans/marttrans/twin.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 2f8b50c..c4ae83c 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -453,7 +453,9 @@ def _solve_f(U, a, n):
         Uf = U + f * np.outer(a, n)
         return abs(la.eigvalsh(Uf.T.dot(Uf))[1] - 1) < 1E-4
 
-    if abs(minus_alpha) < SMALL:
+    # a and n carry a relative error far above SMALL
+    scale = la.norm(U.dot(a)) * la.norm(cofU) * la.norm(n)
+    if abs(minus_alpha) < max(SMALL, 1E-8 * scale):
         return 0 if middle_is_one(0) else None
     elif beta/minus_alpha > 0:
         f = 0.5 + math.sqrt(beta / minus_alpha)
-- 
2.43.0


From f32b5bbf03b79872f7d0569cd915a549fc7f42e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:43 +0000
Subject: [PATCH 56/56] fix: the Laue and point group of a lattice near the
 tolerance are not closed

---
 structrans/crystallography/lattice.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index e46cc26..75ba083 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -93,15 +93,15 @@ class Lattice():
         if not self.dimension() in [2, 3]:
             raise AttributeError('Laue groups for other than 2D and 3D lattices are not implemented yet.')
         if self.__LaueGroup is None and self.dimension() == 3:
-            self.__LaueGroup = MatrixGroup(np.array([Q for Q in CUBIC_LAUE_GROUP.matrices() if self.inpointgroup(Q)]))
+            self.__LaueGroup = MatrixGroup(_closed([Q for Q in CUBIC_LAUE_GROUP.matrices() if self.inpointgroup(Q)]))
             if self.__LaueGroup.order() == 4:
-                hexgroup = MatrixGroup(np.array([Q for Q in HEX_LAUE_GROUP.matrices() if self.inpointgroup(Q)]))
+                hexgroup = MatrixGroup(_closed([Q for Q in HEX_LAUE_GROUP.matrices() if self.inpointgroup(Q)]))
                 if hexgroup.order() > self.__LaueGroup.order():
                     self.__LaueGroup = hexgroup
         if self.__LaueGroup is None and self.dimension() == 2:
-            self.__LaueGroup = MatrixGroup(np.array([Q for Q in SQUARE_GROUP.matrices() if self.inpointgroup(Q)]))
+            self.__LaueGroup = MatrixGroup(_closed([Q for Q in SQUARE_GROUP.matrices() if self.inpointgroup(Q)]))
             if self.__LaueGroup.order() == 2:
-                hexGroup = MatrixGroup(np.array([Q for Q in HEX2D_GROUP.matrices() if self.inpointgroup(Q)]))
+                hexGroup = MatrixGroup(_closed([Q for Q in HEX2D_GROUP.matrices() if self.inpointgroup(Q)]))
                 if hexGroup.order() > self.__LaueGroup.order():
                     self.__LaueGroup = hexGroup
         return self.__LaueGroup
@@ -122,9 +122,9 @@ class Lattice():
             lg = np.array(self.Laue_group().matrices())
             self.__pointGroup = MatrixGroup(np.append(lg, -lg, axis=0))
         elif self.__pointGroup is None and self.__N == 2:
-            self.__pointGroup = MatrixGroup(np.array([Q for Q in SQUARE_EXT_GROUP.matrices() if self.inpointgroup(Q)]))
+            self.__pointGroup = MatrixGroup(_closed([Q for Q in SQUARE_EXT_GROUP.matrices() if self.inpointgroup(Q)]))
             if self.__pointGroup.order() in (2, 4):
-                hexGroup = MatrixGroup(np.array([Q for Q in HEX2D_EXT_GROUP.matrices() if self.inpointgroup(Q)]))
+                hexGroup = MatrixGroup(_closed([Q for Q in HEX2D_EXT_GROUP.matrices() if self.inpointgroup(Q)]))
                 if hexGroup.order() > self.__pointGroup.order():
                     self.__pointGroup = hexGroup
         return self.__pointGroup
@@ -202,6 +202,14 @@ def _near_int(A):
     return bool(np.all(np.abs(A - np.rint(A)) <= np.minimum(1E-8 + 1E-5 * np.abs(A), 1E-4)))
 
 
+def _closed(Qs):
+    # the elements that permute the given ones: all of them if these form a group,
+    # which they need not if the lattice deviates from a symmetric one by about the tolerance
+    Qs = np.array(Qs)
+    return np.array([Q for Q in Qs
+                     if all(np.min(np.max(np.abs(Qs - np.dot(Q, P)), axis=(1, 2))) < 1E-6 for P in Qs)])
+
+
 def _in_O3(Q):
     Q = np.array(Q)
     if not _is_square_mat(Q):
-- 
2.43.0

