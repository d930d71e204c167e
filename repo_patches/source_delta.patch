From a663a419a01b8cffb16752decbfb13a3bcde6140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:15 +0000
Subject: [PATCH 01/36] fix: keep exact arithmetic exact above 2**53

add(), mul() and div() reduced their results with float division, which
rounds once an un-reduced numerator or denominator exceeds 2**53 although
it still fits in the 64-bit integers used. Use integer division.
---
 src/pyqcstrc/dode2/math1.py | 18 +++++++++---------
 src/pyqcstrc/ico2/math1.py  | 18 +++++++++---------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/pyqcstrc/dode2/math1.py b/src/pyqcstrc/dode2/math1.py
index 3d06b91..5ffbda0 100755
--- a/src/pyqcstrc/dode2/math1.py
+++ b/src/pyqcstrc/dode2/math1.py
@@ -32,9 +32,9 @@ def add(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     c3=a[2]*b[2]
     x=np.array([c1,c2,c3],dtype=np.int64)
     g=np.gcd.reduce(x)
-    c1=int(c1/g)
-    c2=int(c2/g)
-    c3=int(c3/g)
+    c1=int(c1//g)
+    c2=int(c2//g)
+    c3=int(c3//g)
     if c3<0:
         return np.array([-c1,-c2,-c3])
     else:
@@ -60,9 +60,9 @@ def mul(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     c3=4*a[2]*b[2]
     x=np.array([c1,c2,c3],dtype=np.int64)
     g=np.gcd.reduce(x)
-    c1=int(c1/g)
-    c2=int(c2/g)
-    c3=int(c3/g)
+    c1=int(c1//g)
+    c2=int(c2//g)
+    c3=int(c3//g)
     if c3<0:
         return np.array([-c1,-c2,-c3])
     else:
@@ -130,9 +130,9 @@ def div(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
             x=np.array([c1,c2,c3],dtype=np.int64)
             g=np.gcd.reduce(x)
             if g!=0:
-                c1=int(c1/g)
-                c2=int(c2/g)
-                c3=int(c3/g)
+                c1=int(c1//g)
+                c2=int(c2//g)
+                c3=int(c3//g)
                 if c3<0:
                     return np.array([-c1,-c2,-c3],dtype=np.int64)
                 else:
diff --git a/src/pyqcstrc/ico2/math1.py b/src/pyqcstrc/ico2/math1.py
index 393e87b..5ecf634 100755
--- a/src/pyqcstrc/ico2/math1.py
+++ b/src/pyqcstrc/ico2/math1.py
@@ -31,9 +31,9 @@ def add(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     c3=a[2]*b[2]
     x=np.array([c1,c2,c3],dtype=np.int64)
     g=np.gcd.reduce(x)
-    c1=c1/g
-    c2=c2/g
-    c3=c3/g
+    c1=c1//g
+    c2=c2//g
+    c3=c3//g
     if c3<0:
         return np.array([int(-c1),int(-c2),int(-c3)])
     else:
@@ -59,9 +59,9 @@ def mul(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     c3=a[2]*b[2]
     x=np.array([c1,c2,c3],dtype=np.int64)
     g=np.gcd.reduce(x)
-    c1=c1/g
-    c2=c2/g
-    c3=c3/g
+    c1=c1//g
+    c2=c2//g
+    c3=c3//g
     if c3<0:
         return np.array([int(-c1),int(-c2),int(-c3)])
     else:
@@ -124,9 +124,9 @@ def div(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
             x=np.array([c1,c2,c3],dtype=np.int64)
             g=np.gcd.reduce(x)
             if g!=0:
-                c1=c1/g
-                c2=c2/g
-                c3=c3/g
+                c1=c1//g
+                c2=c2//g
+                c3=c3//g
                 if c3<0:
                     return np.array([int(-c1),int(-c2),int(-c3)],dtype=np.int64)
                 else:
-- 
2.43.0


From e4cfda7f5d27ab9f6c2413e17a70034e13af0d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:39 +0000
Subject: [PATCH 02/36] fix: mul_vectors() returned None for a 4-dimensional
 set of vectors

---
 src/pyqcstrc/dode2/math1.py | 1 +
 src/pyqcstrc/ico2/math1.py  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/pyqcstrc/dode2/math1.py b/src/pyqcstrc/dode2/math1.py
index 5ffbda0..5f99d82 100755
--- a/src/pyqcstrc/dode2/math1.py
+++ b/src/pyqcstrc/dode2/math1.py
@@ -230,6 +230,7 @@ def mul_vectors(vts: NDArray[np.int64], coeff:NDArray[np.int64]) -> NDArray[np.i
         for i1,vt in enumerate(vts):
             for i2,v in enumerate(vt):
                 a[i1][i2]=mul_vector(v,coeff)
+        return a
     else:
         print('incorrect shape')
         return
diff --git a/src/pyqcstrc/ico2/math1.py b/src/pyqcstrc/ico2/math1.py
index 5ecf634..7bd93a7 100755
--- a/src/pyqcstrc/ico2/math1.py
+++ b/src/pyqcstrc/ico2/math1.py
@@ -224,6 +224,7 @@ def mul_vectors(vts: NDArray[np.int64], coeff:NDArray[np.int64]) -> NDArray[np.i
         for i1,vt in enumerate(vts):
             for i2,v in enumerate(vt):
                 a[i1][i2]=mul_vector(v,coeff)
+        return a
     else:
         print('incorrect shape')
         return
-- 
2.43.0


From ecccf856f7eda22769da4369d8a29e7c3c28e03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:39 +0000
Subject: [PATCH 03/36] fix: dot_product_1() used the wrong matrix element in
 the matrix-matrix case

---
 src/pyqcstrc/dode2/math1.py | 2 +-
 src/pyqcstrc/ico2/math1.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyqcstrc/dode2/math1.py b/src/pyqcstrc/dode2/math1.py
index 5f99d82..0ca296e 100755
--- a/src/pyqcstrc/dode2/math1.py
+++ b/src/pyqcstrc/dode2/math1.py
@@ -391,7 +391,7 @@ def dot_product_1(mat1: NDArray[np.int64], mat2:NDArray[np.int64]) -> NDArray[np
                 for j in range(u):
                     a=np.array([0,0,1])
                     for i in range(t1):
-                        val=np.array([mat1[k][j],0,1])
+                        val=np.array([mat1[k][i],0,1])
                         b=mul(val,mat2[i][j])
                         a=add(a,b)
                     mat_new[k][j]=a
diff --git a/src/pyqcstrc/ico2/math1.py b/src/pyqcstrc/ico2/math1.py
index 7bd93a7..065fe50 100755
--- a/src/pyqcstrc/ico2/math1.py
+++ b/src/pyqcstrc/ico2/math1.py
@@ -385,7 +385,7 @@ def dot_product_1(mat1: NDArray[np.int64], mat2:NDArray[np.int64]) -> NDArray[np
                 for j in range(u):
                     a=np.array([0,0,1])
                     for i in range(t1):
-                        val=np.array([mat1[k][j],0,1])
+                        val=np.array([mat1[k][i],0,1])
                         b=mul(val,mat2[i][j])
                         a=add(a,b)
                     mat_new[k][j]=a
-- 
2.43.0


From 77541454aaf8d402f93ec1f84bfcc321ea02f9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:39 +0000
Subject: [PATCH 04/36] fix: det_matrix() referred to an undefined name

---
 src/pyqcstrc/dode2/math1.py | 2 +-
 src/pyqcstrc/ico2/math1.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyqcstrc/dode2/math1.py b/src/pyqcstrc/dode2/math1.py
index 0ca296e..a81e914 100755
--- a/src/pyqcstrc/dode2/math1.py
+++ b/src/pyqcstrc/dode2/math1.py
@@ -655,7 +655,7 @@ def det_matrix(mtx: NDArray[np.int64]) -> NDArray[np.int64]:
     t1=mul(t3,mtx[2][2])
     #
     t3=mul(mtx[0][2],mtx[1][0])
-    t2=mul(t3,c[1])
+    t2=mul(t3,mtx[2][1])
     #
     t1=add(t1,t2)
     
diff --git a/src/pyqcstrc/ico2/math1.py b/src/pyqcstrc/ico2/math1.py
index 065fe50..97e346b 100755
--- a/src/pyqcstrc/ico2/math1.py
+++ b/src/pyqcstrc/ico2/math1.py
@@ -671,7 +671,7 @@ def det_matrix(mtx: NDArray[np.int64]) -> NDArray[np.int64]:
     t1=mul(t3,mtx[2][2])
     #
     t3=mul(mtx[0][2],mtx[1][0])
-    t2=mul(t3,c[1])
+    t2=mul(t3,mtx[2][1])
     #
     t1=add(t1,t2)
     
-- 
2.43.0


From 073d2a801a703fde10e489a5810f92f6273283f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:03 +0000
Subject: [PATCH 05/36] fix: inside_outside_obj() reported inside and outside
 the wrong way round

inside_outside_obj_tau() and the dodecagonal inside_outside_obj() moreover
referred to undefined names.
---
 src/pyqcstrc/dode2/numericalc.py | 13 +++++--------
 src/pyqcstrc/ico2/numericalc.py  | 11 ++++-------
 2 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/pyqcstrc/dode2/numericalc.py b/src/pyqcstrc/dode2/numericalc.py
index c0e5034..bc9b1fc 100755
--- a/src/pyqcstrc/dode2/numericalc.py
+++ b/src/pyqcstrc/dode2/numericalc.py
@@ -489,11 +489,8 @@ def triangle_area_numerical(a: NDArray[np.float64]) -> float:
 def inside_outside_obj_tau(point: NDArray[np.int64], obj: NDArray[np.int64]) -> bool:
     
     # TAU-style to Float
-    point=numerical_vector(point)
-    obj=numerical_vectors(obj)
-    # 
-    point=get_internal_component_numerical(ln)
-    obj=get_internal_component_sets_numerical(obj)
+    point=get_internal_component_numerical(point)
+    obj=np.array([get_internal_component_sets_numerical(a) for a in obj])
     return inside_outside_obj(point,obj)
     
 def inside_outside_obj(point: NDArray[np.float64], obj: NDArray[np.float64]) -> bool:
@@ -507,14 +504,14 @@ def inside_outside_obj(point: NDArray[np.float64], obj: NDArray[np.float64]) ->
         vertex coordinates of triangle, (xyz1, xyz2, xyz3), (), (), ...
     """
     flg=0
-    for tetrahedron in obj:
+    for triangle in obj:
         if inside_outside_triangle(point,triangle):
             flg+=1
             break
     if flg==0:
-        return True # inside
-    else:
         return False # outside
+    else:
+        return True # inside
 
 def inside_outside_triangle_tau(point: NDArray[np.int64], triangle: NDArray[np.int64]) -> bool:
     """this function judges whether the point is inside a triangle or not
diff --git a/src/pyqcstrc/ico2/numericalc.py b/src/pyqcstrc/ico2/numericalc.py
index 4387b5a..cb1e199 100755
--- a/src/pyqcstrc/ico2/numericalc.py
+++ b/src/pyqcstrc/ico2/numericalc.py
@@ -423,11 +423,8 @@ def triangle_area_numerical(a: NDArray[np.float64]) -> float:
 def inside_outside_obj_tau(point: NDArray[np.int64], obj: NDArray[np.int64]) -> bool:
     
     # TAU-style to Float
-    point=numerical_vector(point)
-    obj=numerical_vectors(obj)
-    # 
-    point=get_internal_component_numerical(ln)
-    obj=get_internal_component_sets_numerical(obj)
+    point=get_internal_component_numerical(point)
+    obj=np.array([get_internal_component_sets_numerical(a) for a in obj])
     return inside_outside_obj(point,obj)
     
 def inside_outside_obj(point: NDArray[np.float64], obj: NDArray[np.float64]) -> bool:
@@ -446,9 +443,9 @@ def inside_outside_obj(point: NDArray[np.float64], obj: NDArray[np.float64]) ->
             flg+=1
             break
     if flg==0:
-        return True # inside
-    else:
         return False # outside
+    else:
+        return True # inside
 
 def inside_outside_tetrahedron_tau(point: NDArray[np.int64], tetrahedron: NDArray[np.int64]) -> bool:
     """this function judges whether the point is inside a tetrahedron or not
-- 
2.43.0


From 625184475b666fa1a1978bd03561b1eaf477435a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:46 +0000
Subject: [PATCH 06/36] fix: generator_equivalent_vectors() did not call the
 orbit generator

---
 src/pyqcstrc/dode2/symmetry.py | 2 +-
 src/pyqcstrc/ico2/symmetry.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyqcstrc/dode2/symmetry.py b/src/pyqcstrc/dode2/symmetry.py
index 29aa176..324d37b 100755
--- a/src/pyqcstrc/dode2/symmetry.py
+++ b/src/pyqcstrc/dode2/symmetry.py
@@ -124,7 +124,7 @@ def generator_obj_symmetric_vec(vectors, centre):
 def generator_equivalent_vectors(vectors,centre):
     """
     """
-    a=generator_obj_symmetric_obj
+    a=generator_obj_symmetric_obj(vectors,centre)
     return remove_doubling_in_perp_space(a)
 
 def generator_equivalent_vec(vector,centre):
diff --git a/src/pyqcstrc/ico2/symmetry.py b/src/pyqcstrc/ico2/symmetry.py
index aaa20dd..e6e9ad6 100755
--- a/src/pyqcstrc/ico2/symmetry.py
+++ b/src/pyqcstrc/ico2/symmetry.py
@@ -110,7 +110,7 @@ def generator_obj_symmetric_vec(vectors, centre):
     return generator_obj_symmetric_obj(vectors,centre)
 
 def generator_equivalent_vectors(vectors,centre):
-    a=generator_obj_symmetric_obj
+    a=generator_obj_symmetric_obj(vectors,centre)
     return remove_doubling_in_perp_space(a)
 
 def generator_equivalent_vec(vector,centre):
-- 
2.43.0


From 3744ff35c0a1c6e66f9a25884391263eac15b2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:46 +0000
Subject: [PATCH 07/36] fix: orbit generator for selected operations used an
 undefined name

---
 src/pyqcstrc/dode2/symmetry.py | 6 +++---
 src/pyqcstrc/ico2/symmetry.py  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pyqcstrc/dode2/symmetry.py b/src/pyqcstrc/dode2/symmetry.py
index 324d37b..12c0d41 100755
--- a/src/pyqcstrc/dode2/symmetry.py
+++ b/src/pyqcstrc/dode2/symmetry.py
@@ -99,11 +99,11 @@ def generator_obj_symmetric_triangle_specific_symop(obj,centre,list_of_symmetry_
     # using specific symmetry operations
     if obj.ndim==3 or obj.ndim==4:
         mop=dodesymop()
-        shape=tuple([len(index_of_symmetry_operation)])
+        shape=tuple([len(list_of_symmetry_operation_index)])
         a=np.zeros(shape+obj.shape,dtype=np.int64)
         i=0
-        for i in index_of_symmetry_operation:
-            a[i]=symop_obj(mop[i],obj,centre)
+        for indx in list_of_symmetry_operation_index:
+            a[i]=symop_obj(mop[indx],obj,centre)
             i+=1
         return a
     else:
diff --git a/src/pyqcstrc/ico2/symmetry.py b/src/pyqcstrc/ico2/symmetry.py
index e6e9ad6..8cf99e0 100755
--- a/src/pyqcstrc/ico2/symmetry.py
+++ b/src/pyqcstrc/ico2/symmetry.py
@@ -91,11 +91,11 @@ def generator_obj_symmetric_tetrahedron_specific_symop(obj,centre,list_of_symmet
     # using specific symmetry operations
     if obj.ndim==3 or obj.ndim==4:
         mop=icosasymop()
-        shape=tuple([len(index_of_symmetry_operation)])
+        shape=tuple([len(list_of_symmetry_operation_index)])
         a=np.zeros(shape+obj.shape,dtype=np.int64)
         i=0
-        for i in index_of_symmetry_operation:
-            a[i]=symop_obj(mop[i],obj,centre)
+        for indx in list_of_symmetry_operation_index:
+            a[i]=symop_obj(mop[indx],obj,centre)
             i+=1
         return a
     else:
-- 
2.43.0


From b1d404656015874b76b5a536d8cb638d81a197af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:42 +0000
Subject: [PATCH 08/36] fix: coplanarity test gave no answer when the randomly
 chosen points were collinear

---
 src/pyqcstrc/dode2/numericalc.py | 46 +++++++++-----------------------
 src/pyqcstrc/ico2/numericalc.py  | 46 +++++++++-----------------------
 2 files changed, 24 insertions(+), 68 deletions(-)

diff --git a/src/pyqcstrc/dode2/numericalc.py b/src/pyqcstrc/dode2/numericalc.py
index bc9b1fc..6dbac83 100755
--- a/src/pyqcstrc/dode2/numericalc.py
+++ b/src/pyqcstrc/dode2/numericalc.py
@@ -5,7 +5,6 @@
 #
 import numpy as np
 from numpy.typing import NDArray
-import random
 
 TAU=np.sqrt(3)/2.0
 EPS=1e-6
@@ -31,14 +30,14 @@ def coplanar_check_numeric_tau(pts: NDArray[np.int64], num_iteration: int=5) ->
 def coplanar_check_numeric(pns: NDArray[np.float64],num_iteration: int=5) -> bool:
     """check the points (pns) are in coplanar or not
     メモ：xyz1とxyz2の選び方次第で、outer_product(v1,v2)が小さくなりcoplanarと間違って判定する場合がある。
-    これを避けるために適切なxyz1とxyz2の選び方が必要。以下では、ランダムにxyz1とxyz2の選ぶ。
+    これを避けるために適切なxyz1とxyz2の選び方が必要。以下では、互いに離れた点を選ぶ。
     
     Parameters
     ----------
     pns: array
         coordinate of the points in Eperp, xyz.
     num_iteration: int
-        number of iterations.
+        not used.
     
     Returns
     -------
@@ -46,38 +45,17 @@ def coplanar_check_numeric(pns: NDArray[np.float64],num_iteration: int=5) -> boo
     """
     num=len(pns)
     if num>3:
-        flag=0
-        lst0=[i for i in range(num)]
-        for _ in range(num_iteration):
-            lst3=random.sample(lst0, 3)
-            #
-            xyz1=pns[lst3[1]]-pns[lst3[0]]
-            xyz2=pns[lst3[2]]-pns[lst3[0]]
-            vec=np.cross(xyz1,xyz2)
-            flg=0
-            if np.all(abs(vec)<EPS):
-                pass
-            else:
-                flag=1
-                break
-        if flag==1:
-            counter=0
-            lst=list(filter(lambda x: x not in lst3, lst0))
-            for i in lst:
-            #for i in list(filter(lambda x: x not in lst3, lst0)):
-                xyzi=pns[i]-pns[lst3[0]]
-                if abs(np.dot(vec,xyzi))<1e-10:
-                    pass
-                else:
-                    counter=1
-                    break
-            if counter==0:
-                return True
-            else:
-                return False
+        # the reference plane is spanned by points that are far from each other, 
+        # so that the result does not depend on which points happen to be chosen.
+        pns=np.asarray(pns,dtype=np.float64)
+        xyz=pns-pns[0]
+        xyz1=xyz[np.argmax(np.linalg.norm(xyz,axis=1))]
+        vecs=np.cross(xyz1,xyz)
+        vec=vecs[np.argmax(np.linalg.norm(vecs,axis=1))]
+        if np.all(abs(vec)<EPS):
+            return True # collinear
         else:
-            'error in coplanar_check_numeric. increase num_iteration.'
-            return 
+            return bool(np.all(abs(np.dot(xyz,vec))<1e-10))
     else:
         return True
 
diff --git a/src/pyqcstrc/ico2/numericalc.py b/src/pyqcstrc/ico2/numericalc.py
index cb1e199..c500118 100755
--- a/src/pyqcstrc/ico2/numericalc.py
+++ b/src/pyqcstrc/ico2/numericalc.py
@@ -5,7 +5,6 @@
 #
 import numpy as np
 from numpy.typing import NDArray
-import random
 
 TAU=(1+np.sqrt(5))/2.0
 EPS=1e-6
@@ -31,14 +30,14 @@ def coplanar_check_numeric_tau(pts: NDArray[np.int64], num_iteration: int=5) ->
 def coplanar_check_numeric(pns: NDArray[np.float64],num_iteration: int=5) -> bool:
     """check the points (pns) are in coplanar or not
     メモ：xyz1とxyz2の選び方次第で、outer_product(v1,v2)が小さくなりcoplanarと間違って判定する場合がある。
-    これを避けるために適切なxyz1とxyz2の選び方が必要。以下では、ランダムにxyz1とxyz2の選ぶ。
+    これを避けるために適切なxyz1とxyz2の選び方が必要。以下では、互いに離れた点を選ぶ。
     
     Parameters
     ----------
     pns: array
         coordinate of the points in Eperp, xyz.
     num_iteration: int
-        number of iterations.
+        not used.
     
     Returns
     -------
@@ -46,38 +45,17 @@ def coplanar_check_numeric(pns: NDArray[np.float64],num_iteration: int=5) -> boo
     """
     num=len(pns)
     if num>3:
-        flag=0
-        lst0=[i for i in range(num)]
-        for _ in range(num_iteration):
-            lst3=random.sample(lst0, 3)
-            #
-            xyz1=pns[lst3[1]]-pns[lst3[0]]
-            xyz2=pns[lst3[2]]-pns[lst3[0]]
-            vec=np.cross(xyz1,xyz2)
-            flg=0
-            if np.all(abs(vec)<EPS):
-                pass
-            else:
-                flag=1
-                break
-        if flag==1:
-            counter=0
-            lst=list(filter(lambda x: x not in lst3, lst0))
-            for i in lst:
-            #for i in list(filter(lambda x: x not in lst3, lst0)):
-                xyzi=pns[i]-pns[lst3[0]]
-                if abs(np.dot(vec,xyzi))<1e-10:
-                    pass
-                else:
-                    counter=1
-                    break
-            if counter==0:
-                return True
-            else:
-                return False
+        # the reference plane is spanned by points that are far from each other, 
+        # so that the result does not depend on which points happen to be chosen.
+        pns=np.asarray(pns,dtype=np.float64)
+        xyz=pns-pns[0]
+        xyz1=xyz[np.argmax(np.linalg.norm(xyz,axis=1))]
+        vecs=np.cross(xyz1,xyz)
+        vec=vecs[np.argmax(np.linalg.norm(vecs,axis=1))]
+        if np.all(abs(vec)<EPS):
+            return True # collinear
         else:
-            'error in coplanar_check_numeric. increase num_iteration.'
-            return 
+            return bool(np.all(abs(np.dot(xyz,vec))<1e-10))
     else:
         return True
 
-- 
2.43.0


From c547207e58dca5fef2be8a47268ef433126f50fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:25 +0000
Subject: [PATCH 09/36] fix: exact arithmetic overflowed 64-bit integers
 silently

add(), mul() and div() formed their products in 64-bit integers, so that
e.g. the volume of an intersection of two tetrahedra with small integer
vertices came out wrong and a flat tetrahedron was not recognised. Compute
with python integers; a result beyond 64 bits is kept as python integers.
---
 src/pyqcstrc/dode2/math1.py | 39 ++++++++++++++++++++++++-------------
 src/pyqcstrc/ico2/math1.py  | 39 ++++++++++++++++++++++++-------------
 2 files changed, 52 insertions(+), 26 deletions(-)

diff --git a/src/pyqcstrc/dode2/math1.py b/src/pyqcstrc/dode2/math1.py
index a81e914..04011fd 100755
--- a/src/pyqcstrc/dode2/math1.py
+++ b/src/pyqcstrc/dode2/math1.py
@@ -4,6 +4,7 @@
 # Copyright (c) 2021 Tsunetomo Yamada <tsunetomo.yamada@rs.tus.ac.jp>
 #
 import sys
+import math
 import numpy as np
 from numpy.typing import NDArray
 #sys.path.append('.')
@@ -12,6 +13,15 @@ from pyqcstrc.dode2.numericalc import coplanar_check_numeric_tau
 
 SIN=np.sqrt(3)/2
 
+def exact_value(c1: int, c2: int, c3: int) -> NDArray[np.int64]:
+    """
+    # value in SIN-style. Integers beyond 64 bits are kept as python integers.
+    """
+    try:
+        return np.array([c1,c2,c3],dtype=np.int64)
+    except OverflowError:
+        return np.array([c1,c2,c3],dtype=object)
+
 def add(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     """
     # summation (a+b) in SIN-style
@@ -27,18 +37,19 @@ def add(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     -------
     array
     """
+    a=[int(i) for i in a]
+    b=[int(i) for i in b]
     c1=a[0]*b[2]+b[0]*a[2]
     c2=a[1]*b[2]+b[1]*a[2]
     c3=a[2]*b[2]
-    x=np.array([c1,c2,c3],dtype=np.int64)
-    g=np.gcd.reduce(x)
+    g=math.gcd(c1,c2,c3)
     c1=int(c1//g)
     c2=int(c2//g)
     c3=int(c3//g)
     if c3<0:
-        return np.array([-c1,-c2,-c3])
+        return exact_value(-c1,-c2,-c3)
     else:
-        return np.array([c1,c2,c3])
+        return exact_value(c1,c2,c3)
 
 def mul(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     """
@@ -55,18 +66,19 @@ def mul(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     -------
     array
     """
+    a=[int(i) for i in a]
+    b=[int(i) for i in b]
     c1=4*a[0]*b[0]+3*a[1]*b[1]
     c2=4*(a[0]*b[1]+a[1]*b[0])
     c3=4*a[2]*b[2]
-    x=np.array([c1,c2,c3],dtype=np.int64)
-    g=np.gcd.reduce(x)
+    g=math.gcd(c1,c2,c3)
     c1=int(c1//g)
     c2=int(c2//g)
     c3=int(c3//g)
     if c3<0:
-        return np.array([-c1,-c2,-c3])
+        return exact_value(-c1,-c2,-c3)
     else:
-        return np.array([c1,c2,c3])
+        return exact_value(c1,c2,c3)
 
 def sub(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     """
@@ -109,6 +121,8 @@ def div(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
         if np.all(a[:2]==0):
             return np.array([0,0,1],dtype=np.int64)
         else:
+            a=[int(i) for i in a]
+            b=[int(i) for i in b]
             if b[1]!=0:
                 if b[0]!=0:
                     if 4*b[0]**2-3*b[1]**2!=0:
@@ -127,16 +141,15 @@ def div(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
                 c1=a[0]*b[2]
                 c2=a[1]*b[2]
                 c3=b[0]*a[2]
-            x=np.array([c1,c2,c3],dtype=np.int64)
-            g=np.gcd.reduce(x)
+            g=math.gcd(c1,c2,c3)
             if g!=0:
                 c1=int(c1//g)
                 c2=int(c2//g)
                 c3=int(c3//g)
                 if c3<0:
-                    return np.array([-c1,-c2,-c3],dtype=np.int64)
+                    return exact_value(-c1,-c2,-c3)
                 else:
-                    return np.array([c1,c2,c3],dtype=np.int64)
+                    return exact_value(c1,c2,c3)
             else:
                 print('ERROR_2:division error')
                 return 
@@ -261,7 +274,7 @@ def outer_product(vt1: NDArray[np.int64], vt2:NDArray[np.int64]) -> NDArray[np.i
     b=mul(vt1[1],vt2[0])
     c3=sub(a,b)
     #
-    return np.array([c1,c2,c3],dtype=np.int64)
+    return np.array([c1,c2,c3])
 
 def inner_product(vt1: NDArray[np.int64], vt2:NDArray[np.int64]) -> NDArray[np.int64]:
     """Inner product of two vectors, v1 and v2 in SIN-style.
diff --git a/src/pyqcstrc/ico2/math1.py b/src/pyqcstrc/ico2/math1.py
index 97e346b..e4b5e48 100755
--- a/src/pyqcstrc/ico2/math1.py
+++ b/src/pyqcstrc/ico2/math1.py
@@ -4,6 +4,7 @@
 # Copyright (c) 2021 Tsunetomo Yamada <tsunetomo.yamada@rs.tus.ac.jp>
 #
 import sys
+import math
 import numpy as np
 from numpy.typing import NDArray
 #sys.path.append('.')
@@ -11,6 +12,15 @@ from pyqcstrc.ico2.numericalc import coplanar_check_numeric_tau
 
 TAU=(1+np.sqrt(5))/2.0
 
+def exact_value(c1: int, c2: int, c3: int) -> NDArray[np.int64]:
+    """
+    # value in TAU-style. Integers beyond 64 bits are kept as python integers.
+    """
+    try:
+        return np.array([c1,c2,c3],dtype=np.int64)
+    except OverflowError:
+        return np.array([c1,c2,c3],dtype=object)
+
 def add(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     """
     # summation (a+b) in TAU-style
@@ -26,18 +36,19 @@ def add(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     -------
     array
     """
+    a=[int(i) for i in a]
+    b=[int(i) for i in b]
     c1=a[0]*b[2]+b[0]*a[2]
     c2=a[1]*b[2]+b[1]*a[2]
     c3=a[2]*b[2]
-    x=np.array([c1,c2,c3],dtype=np.int64)
-    g=np.gcd.reduce(x)
+    g=math.gcd(c1,c2,c3)
     c1=c1//g
     c2=c2//g
     c3=c3//g
     if c3<0:
-        return np.array([int(-c1),int(-c2),int(-c3)])
+        return exact_value(-c1,-c2,-c3)
     else:
-        return np.array([int(c1),int(c2),int(c3)])
+        return exact_value(c1,c2,c3)
 
 def mul(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     """
@@ -54,18 +65,19 @@ def mul(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     -------
     array
     """
+    a=[int(i) for i in a]
+    b=[int(i) for i in b]
     c1=a[0]*b[0]+a[1]*b[1]
     c2=a[0]*b[1]+a[1]*b[0]+a[1]*b[1]
     c3=a[2]*b[2]
-    x=np.array([c1,c2,c3],dtype=np.int64)
-    g=np.gcd.reduce(x)
+    g=math.gcd(c1,c2,c3)
     c1=c1//g
     c2=c2//g
     c3=c3//g
     if c3<0:
-        return np.array([int(-c1),int(-c2),int(-c3)])
+        return exact_value(-c1,-c2,-c3)
     else:
-        return np.array([int(c1),int(c2),int(c3)])
+        return exact_value(c1,c2,c3)
 
 def sub(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
     """
@@ -108,6 +120,8 @@ def div(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
         if np.all(a[:2]==0):
             return np.array([0,0,1],dtype=np.int64)
         else:
+            a=[int(i) for i in a]
+            b=[int(i) for i in b]
             if b[1]!=0:
                 if b[0]!=0:
                     c1=(a[0]*b[0] + a[0]*b[1] - a[1]*b[1])*b[2]
@@ -121,16 +135,15 @@ def div(a: NDArray[np.int64], b:NDArray[np.int64]) -> NDArray[np.int64]:
                 c1=a[0]*b[2]
                 c2=a[1]*b[2]
                 c3=b[0]*a[2]
-            x=np.array([c1,c2,c3],dtype=np.int64)
-            g=np.gcd.reduce(x)
+            g=math.gcd(c1,c2,c3)
             if g!=0:
                 c1=c1//g
                 c2=c2//g
                 c3=c3//g
                 if c3<0:
-                    return np.array([int(-c1),int(-c2),int(-c3)],dtype=np.int64)
+                    return exact_value(-c1,-c2,-c3)
                 else:
-                    return np.array([int(c1),int(c2),int(c3)],dtype=np.int64)
+                    return exact_value(c1,c2,c3)
             else:
                 print('ERROR_2:division error')
                 return 
@@ -255,7 +268,7 @@ def outer_product(vt1: NDArray[np.int64], vt2:NDArray[np.int64]) -> NDArray[np.i
     b=mul(vt1[1],vt2[0])
     c3=sub(a,b)
     #
-    return np.array([c1,c2,c3],dtype=np.int64)
+    return np.array([c1,c2,c3])
 
 def inner_product(vt1: NDArray[np.int64], vt2:NDArray[np.int64]) -> NDArray[np.int64]:
     """Inner product of two vectors, v1 and v2 in TAU-style.
-- 
2.43.0


From 06c31d2a0343d36bb404f9336e56f82f517abb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:38 +0000
Subject: [PATCH 10/36] fix: convex intersection failed when no vertex of one
 domain lies inside the other

point_a1 / point_b1 are only set when such a vertex exists.
---
 src/pyqcstrc/dode2/intsct.py | 6 +++++-
 src/pyqcstrc/ico2/intsct.py  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pyqcstrc/dode2/intsct.py b/src/pyqcstrc/dode2/intsct.py
index 552b302..7fa9f0f 100755
--- a/src/pyqcstrc/dode2/intsct.py
+++ b/src/pyqcstrc/dode2/intsct.py
@@ -690,7 +690,11 @@ def intersection_two_obj_convex(obj1: NDArray[np.int64], obj2: NDArray[np.int64]
             # (3) Sum point A, point B and Intersections --->>> common part
             #
             # common part = point1 + point_a1 + point_b1
-            points=np.vstack([point1,point_a1,point_b1])
+            points=point1
+            if counter1a>0:
+                points=np.vstack([points,point_a1])
+            if counter1b>0:
+                points=np.vstack([points,point_b1])
             points=remove_doubling_in_perp_space(points)
             common=triangulation_points(points)
             if np.all(common==None):
diff --git a/src/pyqcstrc/ico2/intsct.py b/src/pyqcstrc/ico2/intsct.py
index 1ac3f3e..391855a 100755
--- a/src/pyqcstrc/ico2/intsct.py
+++ b/src/pyqcstrc/ico2/intsct.py
@@ -768,7 +768,11 @@ def intersection_two_obj_convex(obj1: NDArray[np.int64], obj2: NDArray[np.int64]
             # (3) Sum point A, point B and Intersections --->>> common part
             #
             # common part = point1 + point_a1 + point_b1
-            points=np.vstack([point1,point_a1,point_b1])
+            points=point1
+            if counter1a>0:
+                points=np.vstack([points,point_a1])
+            if counter1b>0:
+                points=np.vstack([points,point_b1])
             points=remove_doubling_in_perp_space(points)
             common=tetrahedralization_points(points)
             if np.all(common==None):
-- 
2.43.0


From 0382349b4053262ea1e3e12e9c7c48d8eb1d0a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:43 +0000
Subject: [PATCH 11/36] fix: dodecagonal convex intersection called a misspelt
 function and mis-shaped points

---
 src/pyqcstrc/dode2/intsct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyqcstrc/dode2/intsct.py b/src/pyqcstrc/dode2/intsct.py
index 7fa9f0f..28be0aa 100755
--- a/src/pyqcstrc/dode2/intsct.py
+++ b/src/pyqcstrc/dode2/intsct.py
@@ -607,7 +607,7 @@ def intersection_two_obj_convex(obj1: NDArray[np.int64], obj2: NDArray[np.int64]
     for vrtx in vertices1:
         counter2a=0
         for triangle2 in obj2:
-            if inside_outside_ttriangle_tau(vrtx,triangle2):
+            if inside_outside_triangle_tau(vrtx,triangle2):
                 counter2a+=1
                 break
             else:
@@ -685,7 +685,7 @@ def intersection_two_obj_convex(obj1: NDArray[np.int64], obj2: NDArray[np.int64]
         if counter==0:
             return 
         else:
-            point1=remove_doubling_in_perp_space(p)
+            point1=remove_doubling_in_perp_space(p.reshape(int(len(p)/6),6,3))
             #
             # (3) Sum point A, point B and Intersections --->>> common part
             #
-- 
2.43.0


From bc6b85122dff177d01261a4bb4b6cb551d5c04d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:43 +0000
Subject: [PATCH 12/36] fix: tetrahedralization_points() failed when the points
 have no Delaunay triangulation

decomposition() returns None, not [0], for e.g. coplanar points.
---
 src/pyqcstrc/ico2/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyqcstrc/ico2/utils.py b/src/pyqcstrc/ico2/utils.py
index b127b59..b7a8ce4 100755
--- a/src/pyqcstrc/ico2/utils.py
+++ b/src/pyqcstrc/ico2/utils.py
@@ -852,7 +852,7 @@ def tetrahedralization_points(points: NDArray[np.int64]) -> NDArray[np.int64]:
         
     ltmp=decomposition(tmp)
     p=points
-    if ltmp!=[0]:
+    if ltmp is not None:
         counter=0
         for i in ltmp:
             tmp3=np.array([p[i[0]],p[i[1]],p[i[2]],p[i[3]]]).reshape(4,6,3)
-- 
2.43.0


From ca950e0fe5836c6e9fcda35e0b20ca5bf03f193d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:32 +0000
Subject: [PATCH 13/36] fix: output files were not closed, so that their
 contents could be missing when read back

---
 src/pyqcstrc/dode2/occupation_domain.py | 11 +++++++----
 src/pyqcstrc/ico2/occupation_domain.py  | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/pyqcstrc/dode2/occupation_domain.py b/src/pyqcstrc/dode2/occupation_domain.py
index ca96e94..2595633 100755
--- a/src/pyqcstrc/dode2/occupation_domain.py
+++ b/src/pyqcstrc/dode2/occupation_domain.py
@@ -908,7 +908,7 @@ def write_xyz(obj,path='.',basename='tmp',select='triangle',verbose=0):
                 vt[3][0],vt[3][1],vt[3][2],\
                 vt[4][0],vt[4][1],vt[4][2],\
                 vt[5][0],vt[5][1],vt[5][2]))
-        f.closed
+        f.close()
         return 0
     
     def generator_xyz_dim4_edge(obj,filename):
@@ -941,7 +941,7 @@ def write_xyz(obj,path='.',basename='tmp',select='triangle',verbose=0):
                 vt[3][0],vt[3][1],vt[3][2],\
                 vt[4][0],vt[4][1],vt[4][2],\
                 vt[5][0],vt[5][1],vt[5][2]))
-        f.closed
+        f.close()
         return 0
     
     def generator_xyz_dim4_vertex(obj, filename):
@@ -973,7 +973,7 @@ def write_xyz(obj,path='.',basename='tmp',select='triangle',verbose=0):
             point[3][0],point[3][1],point[3][2],\
             point[4][0],point[4][1],point[4][2],\
             point[5][0],point[5][1],point[5][2]))
-        f.closed
+        f.close()
         return 0
     
     if np.all(obj==None):
@@ -1040,6 +1040,7 @@ def read_xyz(path,basename,select='triangle',verbose=0):
             if not a:
                 break
             line.append(a[:-1])
+        f.close()
         return line
     
     filename='%s/%s.xyz'%(path,basename)
@@ -1228,6 +1229,8 @@ def obj2podatm(obj,serial_number=1,path='.',basename='tmp',shift=[0,0,0,0,0,0]):
         for indx in lst_indx:
             fpod.write(' %d'%(indx))
         fpod.write('\n')
+        fatm.close()
+        fpod.close()
         
         return 0
     
@@ -1271,7 +1274,7 @@ def simple_hand_step1(obj, path, basename_tmp):
             a[i1][3][0],a[i1][3][1],a[i1][3][2],\
             a[i1][4][0],a[i1][4][1],a[i1][4][2],\
             a[i1][5][0],a[i1][5][1],a[i1][5][2]))
-        f.closed
+        f.close()
         return 0
         
     od1a=utils.remove_doubling_in_perp_space(obj)
diff --git a/src/pyqcstrc/ico2/occupation_domain.py b/src/pyqcstrc/ico2/occupation_domain.py
index 6e3aec8..2d9200c 100755
--- a/src/pyqcstrc/ico2/occupation_domain.py
+++ b/src/pyqcstrc/ico2/occupation_domain.py
@@ -938,7 +938,7 @@ def write_xyz(obj,path='.',basename='tmp',select='tetrahedron',verbose=0):
                 triangle[i2][4][0],triangle[i2][4][1],triangle[i2][4][2],\
                 triangle[i2][5][0],triangle[i2][5][1],triangle[i2][5][2]))
             i1+=1
-        f.closed
+        f.close()
         return 0
     
     def generator_xyz_dim4_edge(obj,filename):
@@ -973,7 +973,7 @@ def write_xyz(obj,path='.',basename='tmp',select='tetrahedron',verbose=0):
                 edge[i2][4][0],edge[i2][4][1],edge[i2][4][2],\
                 edge[i2][5][0],edge[i2][5][1],edge[i2][5][2]))
             i1+=1
-        f.closed
+        f.close()
         return 0
     
     def generator_xyz_dim4_vertex(obj, filename):
@@ -1007,7 +1007,7 @@ def write_xyz(obj,path='.',basename='tmp',select='tetrahedron',verbose=0):
             point[4][0],point[4][1],point[4][2],\
             point[5][0],point[5][1],point[5][2]))
             i1=0
-        f.closed
+        f.close()
         return 0
     
     if np.all(obj==None):
@@ -1074,6 +1074,7 @@ def read_xyz(path,basename,select='tetrahedron',verbose=0):
             if not a:
                 break
             line.append(a[:-1])
+        f.close()
         return line
     
     filename='%s/%s.xyz'%(path,basename)
@@ -1248,6 +1249,8 @@ def obj2podatm(obj,serial_number=1,path='.',basename='tmp',shift=[0,0,0,0,0,0]):
         for indx in lst_indx:
             fpod.write(' %d'%(indx))
         fpod.write('\n')
+        fatm.close()
+        fpod.close()
         
         return 0
     
@@ -1291,7 +1294,7 @@ def simple_hand_step1(obj, path, basename_tmp):
             a[i1][3][0],a[i1][3][1],a[i1][3][2],\
             a[i1][4][0],a[i1][4][1],a[i1][4][2],\
             a[i1][5][0],a[i1][5][1],a[i1][5][2]))
-        f.closed
+        f.close()
         return 0
         
     od1a=utils.remove_doubling_in_perp_space(obj)
-- 
2.43.0


From 9ea368a6f7b80e5da632710c8ad1a717c6a26927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:32 +0000
Subject: [PATCH 14/36] fix: XYZ export of dodecagonal edges and vertices wrote
 them as triangles

---
 src/pyqcstrc/dode2/occupation_domain.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyqcstrc/dode2/occupation_domain.py b/src/pyqcstrc/dode2/occupation_domain.py
index 2595633..e625774 100755
--- a/src/pyqcstrc/dode2/occupation_domain.py
+++ b/src/pyqcstrc/dode2/occupation_domain.py
@@ -989,17 +989,17 @@ def write_xyz(obj,path='.',basename='tmp',select='triangle',verbose=0):
         #    if verbose>0:
         #        print('    written in %s/%s.xyz'%(path,basename))
         #    return 0
-        if select == 'triangle' or 't':
+        if select == 'triangle' or select == 't':
             generator_xyz_dim4_triangle(obj, file_name)
             if verbose>0:
                 print('    written in %s/%s.xyz'%(path,basename))
             return 0
-        elif select == 'edge' or 'e':
+        elif select == 'edge' or select == 'e':
             generator_xyz_dim4_edge(obj, file_name)
             if verbose>0:
                 print('    written in %s/%s.xyz'%(path,basename))
             return 0
-        elif select == 'vertex' or 'v':
+        elif select == 'vertex' or select == 'v':
             generator_xyz_dim4_vertex(obj, file_name)
             if verbose>0:
                 print('    written in %s/%s.xyz'%(path,basename))
-- 
2.43.0


From d712333d6083ef51487d2351368f36b9b45699a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:32 +0000
Subject: [PATCH 15/36] fix: XYZ export of vertices refused every set of
 vertices

---
 src/pyqcstrc/dode2/occupation_domain.py | 2 +-
 src/pyqcstrc/ico2/occupation_domain.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyqcstrc/dode2/occupation_domain.py b/src/pyqcstrc/dode2/occupation_domain.py
index e625774..4b987b9 100755
--- a/src/pyqcstrc/dode2/occupation_domain.py
+++ b/src/pyqcstrc/dode2/occupation_domain.py
@@ -979,7 +979,7 @@ def write_xyz(obj,path='.',basename='tmp',select='triangle',verbose=0):
     if np.all(obj==None):
         print('empty obj')
         return 
-    elif obj.ndim!=4:
+    elif obj.ndim!=4 and not (obj.ndim==3 and (select == 'vertex' or select == 'v')):
         print('object has an incorrect shape!')
         return 
     else:
diff --git a/src/pyqcstrc/ico2/occupation_domain.py b/src/pyqcstrc/ico2/occupation_domain.py
index 2d9200c..2af8741 100755
--- a/src/pyqcstrc/ico2/occupation_domain.py
+++ b/src/pyqcstrc/ico2/occupation_domain.py
@@ -1006,14 +1006,14 @@ def write_xyz(obj,path='.',basename='tmp',select='tetrahedron',verbose=0):
             point[3][0],point[3][1],point[3][2],\
             point[4][0],point[4][1],point[4][2],\
             point[5][0],point[5][1],point[5][2]))
-            i1=0
+            i1+=1
         f.close()
         return 0
     
     if np.all(obj==None):
         print('empty obj')
         return 
-    elif obj.ndim!=4:
+    elif obj.ndim!=4 and not (obj.ndim==3 and select == 'vertex'):
         print('object has an incorrect shape!')
         return 
     else:
-- 
2.43.0


From 9f6908483a1ab82ce5982471de4f428acd46ab84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:32 +0000
Subject: [PATCH 16/36] fix: XYZ export listed the volume of the last
 tetrahedron for every tetrahedron

---
 src/pyqcstrc/ico2/occupation_domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyqcstrc/ico2/occupation_domain.py b/src/pyqcstrc/ico2/occupation_domain.py
index 2af8741..f6a8017 100755
--- a/src/pyqcstrc/ico2/occupation_domain.py
+++ b/src/pyqcstrc/ico2/occupation_domain.py
@@ -900,7 +900,7 @@ def write_xyz(obj,path='.',basename='tmp',select='tetrahedron',verbose=0):
         vol=utils.obj_volume_6d(obj)
         f.write('volume = %d %d %d (%8.6f)\n'%(vol[0],vol[1],vol[2],numericalc.numeric_value(vol)))
         for i1 in range(len(obj)):
-            v=utils.tetrahedron_volume_6d(tetrahedron)
+            v=utils.tetrahedron_volume_6d(obj[i1])
             f.write('%3d-the tetrahedron, %d %d %d (%8.6f)\n'\
                     %(i1,v[0],v[1],v[2],numericalc.numeric_value(v)))
         f.close()
-- 
2.43.0


From 4697d7790c90ba8feaaa7c7b1db02d05afe7d1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:32 +0000
Subject: [PATCH 17/36] fix: VESTA export of tetrahedra wrote a set of edges
 whatever was selected

---
 src/pyqcstrc/ico2/occupation_domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyqcstrc/ico2/occupation_domain.py b/src/pyqcstrc/ico2/occupation_domain.py
index f6a8017..6c35196 100755
--- a/src/pyqcstrc/ico2/occupation_domain.py
+++ b/src/pyqcstrc/ico2/occupation_domain.py
@@ -188,7 +188,7 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
     #dmax=5.0
     dmax=10.0
     
-    if select=='simple' or 'egdes':
+    if select=='simple' or select=='egdes':
         
         if np.all(obj==None):
             print('no volume obj')
-- 
2.43.0


From 0df01bf9cba1915edb2a556ba327b402a4246feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:32 +0000
Subject: [PATCH 18/36] fix: VESTA export of merged cells called a function
 that does not exist

---
 src/pyqcstrc/dode2/occupation_domain.py | 9 ++++-----
 src/pyqcstrc/ico2/occupation_domain.py  | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/pyqcstrc/dode2/occupation_domain.py b/src/pyqcstrc/dode2/occupation_domain.py
index 4b987b9..b78fa42 100755
--- a/src/pyqcstrc/dode2/occupation_domain.py
+++ b/src/pyqcstrc/dode2/occupation_domain.py
@@ -205,7 +205,7 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
         else:
             # get independent edges
             if select=='simple':
-                edges = utils.generator_obj_edge(obj,verbose)
+                edges = utils.generator_unique_edges(obj)
             else:
                 edges = obj
             # get independent vertices of the edges
@@ -640,7 +640,7 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
             return 0
         else:
             # get independent edges
-            edges = utils.generator_obj_edge(obj, verbose)
+            edges = utils.generator_unique_edges(obj)
             # get independent vertices of the edges
             vertices = utils.remove_doubling_in_perp_space(edges)
             # get bond pairs, [[distance, XXX, YYY],...]
@@ -708,10 +708,9 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
             \n  0    0    0    0  0\
             \nSBOND', file = f)
             clr=colors(color)
-            for pair in range(len(pairs)):
+            for i2,pair in enumerate(pairs):
                 print('  %d   A%d   A%d   %6.3f   %6.3f  0  1  1  1  2  0.250  2.000 %3d %3d %3d'%(\
-                i2+1, pair[1]+1, pair[2]+1, pair[0]-0.01, pair[0]+0.01, clr[0], clr[1], clr[2]), file=f)
-                i2+=1
+                i2+1, pair[1], pair[2], pair[0]-0.01, pair[0]+0.01, clr[0], clr[1], clr[2]), file=f)
             print('  0 0 0 0\
             \nSITET', file = f)
             for i2 in range(len(vertices)):
diff --git a/src/pyqcstrc/ico2/occupation_domain.py b/src/pyqcstrc/ico2/occupation_domain.py
index 6c35196..d9857f4 100755
--- a/src/pyqcstrc/ico2/occupation_domain.py
+++ b/src/pyqcstrc/ico2/occupation_domain.py
@@ -197,7 +197,7 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
         else:
             # get independent edges
             if select=='simple':
-                edges = utils.generator_obj_edge(obj, verbose)
+                edges = utils.generator_unique_edges(obj)
             else:
                 edges = obj
             # get independent vertices of the edges
@@ -627,7 +627,7 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
             return 0
         else:
             # get independent edges
-            edges = utils.generator_obj_edge(obj, verbose)
+            edges = utils.generator_unique_edges(obj)
             # get independent vertices of the edges
             vertices = utils.remove_doubling_in_perp_space(edges)
             # get bond pairs, [[distance, XXX, YYY],...]
@@ -695,10 +695,9 @@ def write_vesta(obj,path='.',basename='tmp',color='k',select='normal',verbose=0)
             \n  0    0    0    0  0\
             \nSBOND', file = f)
             clr=colors(color)
-            for pair in range(len(pairs)):
+            for i2,pair in enumerate(pairs):
                 print('  %d   A%d   A%d   %6.3f   %6.3f  0  1  1  1  2  0.250  2.000 %3d %3d %3d'%(\
-                i2+1, pair[1]+1, pair[2]+1, pair[0]-0.01, pair[0]+0.01, clr[0], clr[1], clr[2]), file=f)
-                i2+=1
+                i2+1, pair[1], pair[2], pair[0]-0.01, pair[0]+0.01, clr[0], clr[1], clr[2]), file=f)
             print('  0 0 0 0\
             \nSITET', file = f)
             for i2 in range(len(vertices)):
-- 
2.43.0


From ec6f6d155beddc6870434c438ab4474099490af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:32 +0000
Subject: [PATCH 19/36] fix: write_podatm() failed for every set of vertices

---
 src/pyqcstrc/ico2/occupation_domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyqcstrc/ico2/occupation_domain.py b/src/pyqcstrc/ico2/occupation_domain.py
index d9857f4..738fae2 100755
--- a/src/pyqcstrc/ico2/occupation_domain.py
+++ b/src/pyqcstrc/ico2/occupation_domain.py
@@ -1557,7 +1557,7 @@ def write_podatm(obj, position, vlist, path='.', basename='tmp', shift=[0.0,0.0,
     else:
         pass
     
-    if obj==None:
+    if np.all(obj==None):
         print('no volume obj')
         return 0
     else:
-- 
2.43.0


From 5edba1f1224437112d14b578b6d579a9b3654797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:32 +0000
Subject: [PATCH 20/36] fix: simplification by hand failed when writing the
 vertices and when merging triangles

---
 src/pyqcstrc/dode2/occupation_domain.py | 8 ++++----
 src/pyqcstrc/ico2/occupation_domain.py  | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pyqcstrc/dode2/occupation_domain.py b/src/pyqcstrc/dode2/occupation_domain.py
index b78fa42..52d45dd 100755
--- a/src/pyqcstrc/dode2/occupation_domain.py
+++ b/src/pyqcstrc/dode2/occupation_domain.py
@@ -1263,9 +1263,9 @@ def simple_hand_step1(obj, path, basename_tmp):
         for i1 in range(len(a)):
             xyz=math1.projection3(a[i1])
             f.write('Xx %8.6f %8.6f %8.6f # %d-th vertex # %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d\n'%\
-            (numericalc.numeric_value(xyz),\
-            numericalc.numeric_value(xyz),\
-            numericalc.numeric_value(xyz),\
+            (numericalc.numeric_value(xyz[0]),\
+            numericalc.numeric_value(xyz[1]),\
+            numericalc.numeric_value(xyz[2]),\
             i1,\
             a[i1][0][0],a[i1][0][1],a[i1][0][2],\
             a[i1][1][0],a[i1][1][1],a[i1][1][2],\
@@ -1309,7 +1309,7 @@ def simple_hand_step2(obj, merge_list):
     
     for i in range(len(merge_list)):
         tmp1=merge(obj,merge_list[i])
-        od2=intsct.tetrahedralization_points(tmp1)
+        od2=utils.triangulation_points(tmp1)
         if i==0:
             od1=np.array(od2)
         else:
diff --git a/src/pyqcstrc/ico2/occupation_domain.py b/src/pyqcstrc/ico2/occupation_domain.py
index 738fae2..a7cd06d 100755
--- a/src/pyqcstrc/ico2/occupation_domain.py
+++ b/src/pyqcstrc/ico2/occupation_domain.py
@@ -1283,9 +1283,9 @@ def simple_hand_step1(obj, path, basename_tmp):
         for i1 in range(len(a)):
             xyz=math1.projection3(a[i1])
             f.write('Xx %8.6f %8.6f %8.6f # %d-th vertex # %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d\n'%\
-            (numericalc.numeric_value(xyz),\
-            numericalc.numeric_value(xyz),\
-            numericalc.numeric_value(xyz),\
+            (numericalc.numeric_value(xyz[0]),\
+            numericalc.numeric_value(xyz[1]),\
+            numericalc.numeric_value(xyz[2]),\
             i1,\
             a[i1][0][0],a[i1][0][1],a[i1][0][2],\
             a[i1][1][0],a[i1][1][1],a[i1][1][2],\
-- 
2.43.0


From 00fad336cbe5c994c4ade2b7b4dbdcfe3b041624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:32 +0000
Subject: [PATCH 21/36] fix: dodecagonal generate_border_edges() called a
 function that does not exist

---
 src/pyqcstrc/dode2/occupation_domain.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyqcstrc/dode2/occupation_domain.py b/src/pyqcstrc/dode2/occupation_domain.py
index 52d45dd..7b6243d 100755
--- a/src/pyqcstrc/dode2/occupation_domain.py
+++ b/src/pyqcstrc/dode2/occupation_domain.py
@@ -1133,8 +1133,7 @@ def generate_border_edges(obj):
             The shape is (num,2,6,3), where num=numbre_of_edge.
     
     """
-    triangle_surface=utils.generator_surface_1(obj)
-    return utils.surface_cleaner(triangle_surface)
+    return utils.surface_cleaner(obj)
 
 def outline(obj):
     """
-- 
2.43.0


From 8725ac04642b48c3508936b9e19a81904afb17de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:28 +0000
Subject: [PATCH 22/36] fix: simplification filled a non-convex domain up to
 its convex hull

The volume that decides whether the convex hull may replace the domain was
taken from the part of the hull inside the domain, which is the domain itself.
---
 src/pyqcstrc/dode2/occupation_domain.py | 3 +--
 src/pyqcstrc/ico2/occupation_domain.py  | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pyqcstrc/dode2/occupation_domain.py b/src/pyqcstrc/dode2/occupation_domain.py
index 7b6243d..808a21f 100755
--- a/src/pyqcstrc/dode2/occupation_domain.py
+++ b/src/pyqcstrc/dode2/occupation_domain.py
@@ -1107,8 +1107,7 @@ def simplification(obj,verbose=0):
     else:
         vol0=utils.obj_area_6d(obj)
         obj_convex_hull=utils.generate_convex_hull(obj)
-        obj_tmp=intsct.intersection_two_obj_1(obj_convex_hull,obj)
-        vol1=utils.obj_area_6d(obj_tmp)
+        vol1=utils.obj_area_6d(obj_convex_hull)
         if np.all(vol0==vol1):
             if verbose>0:
                 print('      simplification succeed:')
diff --git a/src/pyqcstrc/ico2/occupation_domain.py b/src/pyqcstrc/ico2/occupation_domain.py
index a7cd06d..d166b71 100755
--- a/src/pyqcstrc/ico2/occupation_domain.py
+++ b/src/pyqcstrc/ico2/occupation_domain.py
@@ -1141,8 +1141,7 @@ def simplification(obj,verbose=0):
     else:
         vol0=utils.obj_volume_6d(obj)
         obj_convex_hull=utils.generate_convex_hull(obj)
-        obj_tmp=intsct.intersection_two_obj_1(obj_convex_hull,obj)
-        vol1=utils.obj_volume_6d(obj_tmp)
+        vol1=utils.obj_volume_6d(obj_convex_hull)
         if np.all(vol0==vol1):
             if verbose>0:
                 print('      simplification succeed:')
-- 
2.43.0


From 077545cbc81c5d8ede6fb0f4f770ad15fb2d0a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:14 +0000
Subject: [PATCH 23/36] fix: middle position of two vectors raised NameError

---
 src/pyqcstrc/dode2/utils.py | 2 +-
 src/pyqcstrc/ico2/utils.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyqcstrc/dode2/utils.py b/src/pyqcstrc/dode2/utils.py
index a1a99ea..a10823a 100755
--- a/src/pyqcstrc/dode2/utils.py
+++ b/src/pyqcstrc/dode2/utils.py
@@ -795,7 +795,7 @@ def middle_position(pos1,pos2):
         v=add(pos1[i1],pos2[i1])
         v=mul(v,np.array([1,0,2]))
         if i1!=0:
-            out=np.vstack([tmp2,v])
+            out=np.vstack([out,v])
         else:
             out=v.reshape(1,3)
     return out
diff --git a/src/pyqcstrc/ico2/utils.py b/src/pyqcstrc/ico2/utils.py
index b7a8ce4..026be0d 100755
--- a/src/pyqcstrc/ico2/utils.py
+++ b/src/pyqcstrc/ico2/utils.py
@@ -1088,7 +1088,7 @@ def middle_position(pos1,pos2):
         v=add(pos1[i1],pos2[i1])
         v=mul(v,np.array([1,0,2]))
         if i1!=0:
-            out=np.vstack([tmp2,v])
+            out=np.vstack([out,v])
         else:
             out=v.reshape(1,3)
     return out
-- 
2.43.0


From 89e658f8bbd251ebcb890690951f730648f4e67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:14 +0000
Subject: [PATCH 24/36] fix: merging two neighbouring cells into one raised
 TypeError or found no common edge

---
 src/pyqcstrc/dode2/utils.py | 8 ++++----
 src/pyqcstrc/ico2/utils.py  | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pyqcstrc/dode2/utils.py b/src/pyqcstrc/dode2/utils.py
index a10823a..0c13447 100755
--- a/src/pyqcstrc/dode2/utils.py
+++ b/src/pyqcstrc/dode2/utils.py
@@ -694,7 +694,7 @@ def merge_two_triangles(triangle_1: NDArray[np.int64], triangle_2: NDArray[np.in
             # 2つのtriangesを一つのtriangeに結合できる時、その頂点は上の辺の2つの頂点のうち1つの頂点と頂点1と頂点２。
             if point_on_segment(vtx,line_segment):
                 tmp=remove_vector(vtx_common,vtx)
-                triange_new=np.stack(tmp,line_segment)
+                triange_new=np.vstack([tmp,line_segment])
                 flg+=1
                 break
         else:
@@ -709,7 +709,7 @@ def merge_two_triangles(triangle_1: NDArray[np.int64], triangle_2: NDArray[np.in
 def check_connectivity_triangles(triangle_1: NDArray[np.int64], triangle_2: NDArray[np.int64]) -> bool:
     """Checking whether triangle_1 and _2 are sharing an edge or not.
     """
-    a=np.vstack([triangle_1,triangle_1])
+    a=np.vstack([triangle_1,triangle_2])
     a=remove_doubling_in_perp_space(a)
     if len(a)==4:
         return True # common edge
@@ -719,8 +719,8 @@ def check_connectivity_triangles(triangle_1: NDArray[np.int64], triangle_2: NDAr
 def get_common_edge_in_two_triangles(triangle_1: NDArray[np.int64], triangle_2: NDArray[np.int64]) -> NDArray[np.int64]:
     """ Return common edge of two connected triangles.
     """
-    edge1=get_triangle_edge(triangle_1)
-    edge2=get_triangle_edge(triangle_2)
+    edges1=get_triangle_edge(triangle_1)
+    edges2=get_triangle_edge(triangle_2)
     
     count=0
     for edge_1 in edges1:
diff --git a/src/pyqcstrc/ico2/utils.py b/src/pyqcstrc/ico2/utils.py
index 026be0d..97c9dde 100755
--- a/src/pyqcstrc/ico2/utils.py
+++ b/src/pyqcstrc/ico2/utils.py
@@ -948,7 +948,7 @@ def merge_two_tetrahedra(tetrahedron_1: NDArray[np.int64], tetrahedron_2: NDArra
             # 2つの四面体を一つの四面体に結合できる時、その頂点は上の三角形の3つの頂点のうち2つの頂点と頂点1と頂点２。
             if point_on_segment(vtx,line_segment):
                 tmp=remove_vector(vtx_common,vtx)
-                tetrahedron_new=np.stack(tmp,line_segment)
+                tetrahedron_new=np.vstack([tmp,line_segment])
                 flg+=1
                 break
         else:
-- 
2.43.0


From 1808baf48d3af48ea11440284d732da7af100b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:23 +0000
Subject: [PATCH 25/36] fix: dodecagonal Cython symmetry generators reshape the
 whole orbit

---
 src_cython/dode/symmetry12.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src_cython/dode/symmetry12.pyx b/src_cython/dode/symmetry12.pyx
index 2449abf..16fffca 100755
--- a/src_cython/dode/symmetry12.pyx
+++ b/src_cython/dode/symmetry12.pyx
@@ -100,7 +100,7 @@ cpdef np.ndarray generator_obj_symmetric_triangle(np.ndarray[DTYPE_int_t, ndim=3
         od.extend(symop_obj(mop[i],obj,centre))
     #tmp4=np.array(od).reshape(int(len(od)/54),3,6,3) # 54=3*6*3
     #return tmp4
-    return np.array(od).reshape(int(len(od)/54),3,6,3) # 54=3*6*3
+    return np.array(od).reshape(-1,3,6,3)
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -115,7 +115,7 @@ cpdef np.ndarray generator_obj_symmetric_triangle_specific_symop(np.ndarray[DTYP
         od.extend(symop_obj(symmetry_operation[i],obj,centre))
     #tmp4=np.array(od).reshape(int(len(od)/54),3,6,3) # 54=3*6*3
     #return tmp4
-    return np.array(od).reshape(int(len(od)/54),3,6,3) # 54=3*6*3
+    return np.array(od).reshape(-1,3,6,3)
     
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -163,7 +163,7 @@ cpdef np.ndarray generator_obj_symmetric_vec(np.ndarray[DTYPE_int_t, ndim=3] vec
         for i2 in range(len(vectors)):
             od.extend(symop_vec(mop[i1],vectors[i2],centre))
     #tmp3=np.array(od).reshape(24,int(len(od)/18/24),6,3) # 18=6*3
-    return np.array(od).reshape(24,int(len(od)/18/24),6,3) # 18=6*3
+    return np.array(od).reshape(24,len(vectors),6,3)
     #return tmp3
 
 @cython.boundscheck(False)
@@ -221,7 +221,7 @@ cpdef np.ndarray generator_equivalent_vec(np.ndarray[DTYPE_int_t, ndim=2] vector
     mop=dodesymop()
     for i1 in range(len(mop)):
         od.extend(symop_vec(mop[i1],vector,centre))
-    tmp3=np.array(od).reshape(int(len(od)/18),6,3) # 18=6*3
+    tmp3=np.array(od).reshape(len(mop),6,3)
     return remove_doubling_dim3(tmp3)
     #return remove_doubling_dim3_in_perp_space(tmp3)
     
-- 
2.43.0


From bcb055e705057912df80fd3cf5d5d1ff3dce610b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:23 +0000
Subject: [PATCH 26/36] fix: dodecagonal Cython symmetric() for a site without
 symmetry

---
 src_cython/dode/occupation_domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_cython/dode/occupation_domain.py b/src_cython/dode/occupation_domain.py
index 4f656d7..edd18da 100755
--- a/src_cython/dode/occupation_domain.py
+++ b/src_cython/dode/occupation_domain.py
@@ -746,7 +746,7 @@ def symmetric(asymmetric_unit, site, verbose = 0):
             objs=obj1
         else:
             objs=np.append(objs,obj1)
-    objs=objs.reshape(int(len(objs)/54),3,6,3)
+    objs=objs.reshape(-1,3,6,3)
     
     return objs
 
-- 
2.43.0


From 76cf16e4fc4bd91b674b1d3b52a83b8979cea250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:44 +0000
Subject: [PATCH 27/36] fix: qcstrc no longer drops a phason matrix that has a
 zero entry

---
 src_cython/dode/occupation_domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_cython/dode/occupation_domain.py b/src_cython/dode/occupation_domain.py
index edd18da..f6a6e87 100755
--- a/src_cython/dode/occupation_domain.py
+++ b/src_cython/dode/occupation_domain.py
@@ -889,7 +889,7 @@ def similarity(obj,order):
 def qcstrc(obj, positions, path, basename, atm, phason_matrix, nmax, shift, origin_shift, verbose = 1, option = 0):
     
     #if phason_matrix == 0 or phason_matrix==[[[0]]] or phason_matrix==[[0]] or phason_matrix==[0]:
-    if np.all(phason_matrix)==0:
+    if np.all(np.array(phason_matrix)==0):
         phason_matrix = np.array([[0.0]])
     else:
         pass
-- 
2.43.0


From 1f2f8fd4347be920dd6fd0cf4f71d90f86ec6a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:52 +0000
Subject: [PATCH 28/36] fix: dodecagonal Cython read_xyz did not know the
 selection 'edge'

---
 src_cython/dode/occupation_domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_cython/dode/occupation_domain.py b/src_cython/dode/occupation_domain.py
index f6a6e87..c75913c 100755
--- a/src_cython/dode/occupation_domain.py
+++ b/src_cython/dode/occupation_domain.py
@@ -488,7 +488,7 @@ def read_xyz(path, basename, select='triangle'):
     if select=='triangle':
         num1=3
         return tmp.reshape(int(num/num1),num1,6,3)
-    elif select=='egde':
+    elif select=='edge':
         num1=2
         return tmp.reshape(int(num/num1),num1,6,3)
     else:
-- 
2.43.0


From 0e219c4dd3f48cc9490d7721325b62e80f21682b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:37 +0000
Subject: [PATCH 29/36] fix: Cython icosahedral intersection missed points on
 an edge of a triangle

---
 src_cython/ico/intsct.pyx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src_cython/ico/intsct.pyx b/src_cython/ico/intsct.pyx
index 713397c..292b7c2 100755
--- a/src_cython/ico/intsct.pyx
+++ b/src_cython/ico/intsct.pyx
@@ -16,6 +16,7 @@ DTYPE_double = np.float64
 DTYPE_int = int
 
 cdef np.float64_t TAU=(1+np.sqrt(5))/2.0
+cdef np.float64_t EPS=1e-10 # tolerance
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -1611,13 +1612,14 @@ cdef np.ndarray intersection_segment_surface(np.ndarray[DTYPE_int_t, ndim=2] seg
         #
         #   t = val4/val1:
         #  g1,g2,g3 = div(f10,f11,f12,f1,f2,f3)
-        if val2/val1>=0.0 and val2/val1<=1.0:
+        # the comparisons leave room for rounding, so that a point on an edge of the triangle is not missed
+        if val2/val1>=-EPS and val2/val1<=1.0+EPS:
             f7,f8,f9=det_matrix(vecCD,vecCA,vecBA)
             val3=(f7+f8*TAU)/f9
-            if val3/val1>=0.0 and (val2+val3)/val1<=1.0:
+            if val3/val1>=-EPS and (val2+val3)/val1<=1.0+EPS:
                 f10,f11,f12=det_matrix(vecCD,vecCE,vecCA)
                 val4=(f10+f11*TAU)/f12
-                if val4/val1>=0.0 and val4/val1<=1.0: # t = val4/val1
+                if val4/val1>=-EPS and val4/val1<=1.0+EPS: # t = val4/val1
                     g1,g2,g3=div(f10,f11,f12,f1,f2,f3) # t in TAU-style
                     #
                     #interval=line1a+t*(line1b-line1a)
-- 
2.43.0


From c0897b0083ca9558494c192fc8d230a86292e30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:51 +0000
Subject: [PATCH 30/36] fix: dodecagonal segments crossing at a small angle
 were taken for parallel ones

---
 src/pyqcstrc/dode2/numericalc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyqcstrc/dode2/numericalc.py b/src/pyqcstrc/dode2/numericalc.py
index 6dbac83..81725f0 100755
--- a/src/pyqcstrc/dode2/numericalc.py
+++ b/src/pyqcstrc/dode2/numericalc.py
@@ -394,7 +394,8 @@ def check_intersection_two_segment_numerical(ln1: NDArray[np.float64], ln2: NDAr
     # bunbo
     t2=np.dot(vecAB,vecCD)*np.dot(vecCD,vecAB)-np.dot(vecAB,vecAB)*np.dot(vecCD,vecCD)
     
-    if abs(t2)<EPS:
+    # t2=-(|AB||CD|sin)^2, the angle between the segments is what counts.
+    if abs(t2)<EPS**2*np.dot(vecAB,vecAB)*np.dot(vecCD,vecCD): # parallel
         return False
     else:
         s=t1/t2
-- 
2.43.0


From 783dbdaf30acd90a5526115ec5aa6dd93d51a5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:51 +0000
Subject: [PATCH 31/36] fix: icosahedral intersection_two_segment() failed on
 every input

---
 src/pyqcstrc/ico2/intsct.py     | 13 +++++++------
 src/pyqcstrc/ico2/numericalc.py | 10 +++++-----
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/pyqcstrc/ico2/intsct.py b/src/pyqcstrc/ico2/intsct.py
index 391855a..b52a8b1 100755
--- a/src/pyqcstrc/ico2/intsct.py
+++ b/src/pyqcstrc/ico2/intsct.py
@@ -239,7 +239,6 @@ def check_intersection_two_tetrahedron_4(tetrahedron_1: NDArray[np.int64], tetra
         else:
             return 0 # no intersection
 
-### This function has ho be checked, although it is not used in ico2.
 def intersection_two_segment(segment_1: NDArray[np.int64], segment_2: NDArray[np.int64]) -> NDArray[np.int64]:
     """check intersection between two line segments.
     
@@ -253,7 +252,7 @@ def intersection_two_segment(segment_1: NDArray[np.int64], segment_2: NDArray[np
     
     """
     # check whether two line segments are intersecting or not by numerical calc.
-    flg=check_intersection_two_segment_numerical(segment_1,segment_2)
+    flg=check_intersection_two_segment_numerical_6d_tau(segment_1,segment_2)
     if flg!=3: # intersecting
         # calc in TAU-style
         vec6AB=sub_vectors(segment_1[1],segment_1[0])
@@ -265,15 +264,17 @@ def intersection_two_segment(segment_1: NDArray[np.int64], segment_2: NDArray[np
         tmp=sub_vectors(segment_1[0],segment_2[0])
         vecCA=projection3(tmp)                    # CA
         
+        # view in which the intersection was found
+        c=[[0,1],[1,2],[2,0]][flg]
         #
         #bunbo=vecAB[c[0]]*vecCD[c[1]]-vecCD[c[0]]*vecAB[c[1]]
-        tmp1=mul(vecAB[0],vecCD[1])
-        tmp2=mul(vecCD[0],vecAB[1])
+        tmp1=mul(vecAB[c[0]],vecCD[c[1]])
+        tmp2=mul(vecCD[c[0]],vecAB[c[1]])
         bunbo=sub(tmp1,tmp2)
         #
         #s=(vecCD[c[0]]*vecCA[c[1]]-vecCA[c[0]]*vecCD[c[1]])/bunbo
-        tmp1=mul(vecCD[0],vecCA[1])
-        tmp2=mul(vecCA[0],vecCD[1])
+        tmp1=mul(vecCD[c[0]],vecCA[c[1]])
+        tmp2=mul(vecCA[c[0]],vecCD[c[1]])
         tmp1=sub(tmp1,tmp2)
         s=div(tmp1,bunbo)
         #
diff --git a/src/pyqcstrc/ico2/numericalc.py b/src/pyqcstrc/ico2/numericalc.py
index c500118..c533f0d 100755
--- a/src/pyqcstrc/ico2/numericalc.py
+++ b/src/pyqcstrc/ico2/numericalc.py
@@ -316,8 +316,8 @@ def check_intersection_two_segment_numerical(ln1: NDArray[np.float64], ln2: NDAr
     
     """
     vecAB=ln1[1]-ln1[0] # AB
-    vecCD=ln2[2]-ln2[0] # CD
-    vecCA=ln1[0]-ln2[1] # CA
+    vecCD=ln2[1]-ln2[0] # CD
+    vecCA=ln1[0]-ln2[0] # CA
     
     # check whether two line-segments are intersecting or not.
     comb=[\
@@ -327,11 +327,11 @@ def check_intersection_two_segment_numerical(ln1: NDArray[np.float64], ln2: NDAr
     out=0
     for c in comb:
         bunbo=vecAB[c[0]]*vecCD[c[1]]-vecCD[c[0]]*vecAB[c[1]]
-        if abs(bunbo)<EPS:
+        if abs(bunbo)>EPS:
             t=(vecAB[c[0]]*vecCA[c[1]]-vecCA[c[0]]*vecAB[c[1]])/bunbo
-            if t>=0.0 and t<=1.0:
+            if t>=0.0-EPS and t<=1.0+EPS:
                 s=(vecCD[c[0]]*vecCA[c[1]]-vecCA[c[0]]*vecCD[c[1]])/bunbo
-                if s>=0.0 and s<=1.0:
+                if s>=0.0-EPS and s<=1.0+EPS:
                     if abs(-s*vecAB[c[2]]+t*vecCD[c[2]]-vecCA[c[2]])<=EPS:
                         break
                     else:
-- 
2.43.0


From 1b9a354313800962149922703f26c892d010d1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:13 +0000
Subject: [PATCH 32/36] fix: points a little off a line were taken to be on the
 segment, ends written differently were not

point_on_segment() compared |PA||BA| with PA.BA, which differ only to second
order in the distance from the line: a point 0.001 off a segment of unit length
was taken to be on it, so edges that are not in line were joined into one, and
two cells that form no cell were merged. An end of the segment was missed when
rounding made it lie beyond the other one.
---
 src/pyqcstrc/dode2/numericalc.py | 9 ++++-----
 src/pyqcstrc/ico2/numericalc.py  | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/pyqcstrc/dode2/numericalc.py b/src/pyqcstrc/dode2/numericalc.py
index 81725f0..9d2719a 100755
--- a/src/pyqcstrc/dode2/numericalc.py
+++ b/src/pyqcstrc/dode2/numericalc.py
@@ -84,13 +84,12 @@ def point_on_segment(point: NDArray[np.int64], line_segment: NDArray[np.int64])
     
     vecPA=xyx0-xyx1 # np.array([x0-x1,y0-y1,z0-z1])
     vecBA=xyx2-xyx1 # np.array([x2-x1,y2-y1,z2-z1])
-    lPA=np.linalg.norm(vecPA)
     lBA=np.linalg.norm(vecBA)
-    if lBA>0.0 and abs(np.dot(vecPA,vecBA)-lPA*lBA)<EPS:
-        s=lPA/lBA
-        if s>=0.0 and s<=1.0:
+    if lBA>0.0 and np.linalg.norm(np.cross(vecPA,vecBA))<EPS*lBA: # distance between P and the line
+        s=np.dot(vecPA,vecBA)/lBA
+        if s>=-EPS and s<=lBA+EPS:
             return True
-        elif s>1.0:
+        elif s>lBA:
             return False #       A==B P
         else:
             return False #    P A==B
diff --git a/src/pyqcstrc/ico2/numericalc.py b/src/pyqcstrc/ico2/numericalc.py
index c533f0d..f7588b6 100755
--- a/src/pyqcstrc/ico2/numericalc.py
+++ b/src/pyqcstrc/ico2/numericalc.py
@@ -84,13 +84,12 @@ def point_on_segment(point: NDArray[np.int64], line_segment: NDArray[np.int64])
     
     vecPA=xyx0-xyx1 # np.array([x0-x1,y0-y1,z0-z1])
     vecBA=xyx2-xyx1 # np.array([x2-x1,y2-y1,z2-z1])
-    lPA=np.linalg.norm(vecPA)
     lBA=np.linalg.norm(vecBA)
-    if lBA>0.0 and abs(np.dot(vecPA,vecBA)-lPA*lBA)<EPS:
-        s=lPA/lBA
-        if s>=0.0 and s<=1.0:
+    if lBA>0.0 and np.linalg.norm(np.cross(vecPA,vecBA))<EPS*lBA: # distance between P and the line
+        s=np.dot(vecPA,vecBA)/lBA
+        if s>=-EPS and s<=lBA+EPS:
             return True
-        elif s>1.0:
+        elif s>lBA:
             return False #       A==B P
         else:
             return False #    P A==B
-- 
2.43.0


From 4600a6d5b3775b85d31f8094f1359d5fcef59971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:13 +0000
Subject: [PATCH 33/36] fix: coplanar points of large domains far from the
 origin were not recognised

The tolerance was applied to a volume, so that rounding exceeded it for large
cells; it is now a distance from the plane.
---
 src/pyqcstrc/dode2/numericalc.py | 2 +-
 src/pyqcstrc/ico2/numericalc.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyqcstrc/dode2/numericalc.py b/src/pyqcstrc/dode2/numericalc.py
index 9d2719a..70242be 100755
--- a/src/pyqcstrc/dode2/numericalc.py
+++ b/src/pyqcstrc/dode2/numericalc.py
@@ -55,7 +55,7 @@ def coplanar_check_numeric(pns: NDArray[np.float64],num_iteration: int=5) -> boo
         if np.all(abs(vec)<EPS):
             return True # collinear
         else:
-            return bool(np.all(abs(np.dot(xyz,vec))<1e-10))
+            return bool(np.all(abs(np.dot(xyz,vec))<1e-9*np.linalg.norm(vec))) # distance from the plane
     else:
         return True
 
diff --git a/src/pyqcstrc/ico2/numericalc.py b/src/pyqcstrc/ico2/numericalc.py
index f7588b6..4f0648c 100755
--- a/src/pyqcstrc/ico2/numericalc.py
+++ b/src/pyqcstrc/ico2/numericalc.py
@@ -55,7 +55,7 @@ def coplanar_check_numeric(pns: NDArray[np.float64],num_iteration: int=5) -> boo
         if np.all(abs(vec)<EPS):
             return True # collinear
         else:
-            return bool(np.all(abs(np.dot(xyz,vec))<1e-10))
+            return bool(np.all(abs(np.dot(xyz,vec))<1e-9*np.linalg.norm(vec))) # distance from the plane
     else:
         return True
 
-- 
2.43.0


From 4418a85fe58052904ef5ea15204727b070c94bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:26 +0000
Subject: [PATCH 34/36] fix: surface of a domain lost triangles when the domain
 is far from the origin

Triangles are compared by the position of their centroids; the relative tolerance
of allclose() made different ones equal, the more so the farther from the origin.
---
 src/pyqcstrc/ico2/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyqcstrc/ico2/utils.py b/src/pyqcstrc/ico2/utils.py
index 97c9dde..0898468 100755
--- a/src/pyqcstrc/ico2/utils.py
+++ b/src/pyqcstrc/ico2/utils.py
@@ -286,19 +286,19 @@ def generator_surface_1(obj: NDArray[np.int64], verbose: int=0) -> NDArray[np.in
         # 表面のtriangleのみを選び出すには、重複しているtriangleを除けば良い。
         # 上でxyzをx,y,zの順で優先的にソートできていれば、着目している点をその前後と比べるだけで重複があるか判断できる。
         lst=[]
-        if np.allclose(xyz[indx_xyz[0]],xyz[indx_xyz[1]]):
+        if np.allclose(xyz[indx_xyz[0]],xyz[indx_xyz[1]],rtol=0.0):
             pass
         else:
             lst.append(indx_xyz[0])
         for i1 in range(1,len(indx_xyz)-1):
             counter=0
             for i2 in [-1,1]:
-                if np.allclose(xyz[indx_xyz[i1]],xyz[indx_xyz[i1+i2]]): # equivalent
+                if np.allclose(xyz[indx_xyz[i1]],xyz[indx_xyz[i1+i2]],rtol=0.0): # equivalent
                     counter+=1
                     break
             if counter==0:
                 lst.append(indx_xyz[i1])
-        if np.allclose(xyz[indx_xyz[-1]],xyz[indx_xyz[-2]]):
+        if np.allclose(xyz[indx_xyz[-1]],xyz[indx_xyz[-2]],rtol=0.0):
             pass
         else:
             lst.append(indx_xyz[-1])
-- 
2.43.0


From 296081e763d11ea6ca46b54e28bc3c621fb3f0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:18 +0000
Subject: [PATCH 35/36] fix: dode outline left straight pieces that meet end to
 end unjoined

---
 src_cython/dode/utils12.pyx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src_cython/dode/utils12.pyx b/src_cython/dode/utils12.pyx
index 13fc8ba..3fcfb11 100755
--- a/src_cython/dode/utils12.pyx
+++ b/src_cython/dode/utils12.pyx
@@ -63,8 +63,7 @@ cdef np.ndarray two_segment_into_one(np.ndarray[DTYPE_int_t, ndim=3] line_segmen
     else:
         pass
 
-    comb=[[0,1,0,1],[0,1,1,0],[1,0,0,1]]
-    #comb=[[0,1,0,1],[0,1,1,0],[1,0,0,1],[1,0,1,0]]
+    comb=[[0,1,0,1],[0,1,1,0],[1,0,0,1],[1,0,1,0]]
     counter=0
 
     for i1 in range(len(comb)):
-- 
2.43.0


From 4b0c706ccd9ccbc7fa7684070d0936ed7b91754b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:48 +0000
Subject: [PATCH 36/36] fix: dode intersection was found empty when triangles
 cross only at vertices

The numerical test for crossing edges misses crossings at the very end of an
edge through rounding; vertices of one triangle inside the other tell as well
that there is something to intersect.
---
 src_cython/dode/numericalc12.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_cython/dode/numericalc12.pyx b/src_cython/dode/numericalc12.pyx
index 733e084..cba8e6c 100755
--- a/src_cython/dode/numericalc12.pyx
+++ b/src_cython/dode/numericalc12.pyx
@@ -514,7 +514,7 @@ cpdef int check_intersection_two_triangles(np.ndarray[DTYPE_int_t, ndim=3] trian
                 pass
             return 3 # triangle_2 is inside triangle_1
         else:
-            if counter1>0:
+            if counter1>0 or counter2>0 or counter3>0:
                 if verbose>1:
                     print('        intersection')
                 else:
-- 
2.43.0

