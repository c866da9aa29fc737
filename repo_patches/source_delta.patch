From 7c95be02f37ace00bf92d803d9f086614b685f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:30 +0000
Subject: [PATCH 01/40] fix: Normalize_0_360/Normalize_0_2PI returned the
 excluded upper bound for tiny negative angles

---
 src/MathUtils/Angles.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MathUtils/Angles.h b/src/MathUtils/Angles.h
index cc2af7e..2cda4ba 100644
--- a/src/MathUtils/Angles.h
+++ b/src/MathUtils/Angles.h
@@ -43,6 +43,7 @@ namespace mathutils {
     Real angle = modulo360(a);
     if (angle < 0) {
       angle += 360;
+      if (angle >= 360) angle = 0;  // a tiny negative angle is rounded to a whole turn
     }
     return angle;
   }
@@ -63,6 +64,7 @@ namespace mathutils {
     Real angle = modulo2pi(a);
     if (angle < 0) {
       angle += MU_2PI;
+      if (angle >= (Real) MU_2PI) angle = 0;  // a tiny negative angle is rounded to a whole turn
     }
     return angle;
   }
-- 
2.43.0


From ee7dc4ec064608fa8cd68c0eef8a1d512e18aa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:30 +0000
Subject: [PATCH 02/40] fix: rad2deg by copy did not compile and returned
 nothing

---
 src/MathUtils/Unit.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MathUtils/Unit.h b/src/MathUtils/Unit.h
index 50f2dd9..c3dbaa8 100644
--- a/src/MathUtils/Unit.h
+++ b/src/MathUtils/Unit.h
@@ -52,7 +52,8 @@ namespace mathutils {
   // TODO : faire la meme inplace...
   inline std::vector<T> rad2deg(const std::vector<T> &vector, std::vector<T> &out) {
     out = vector;
-    rad2deg(vector);
+    rad2deg(out);
+    return out;
   }
 
 
-- 
2.43.0


From 5375608cee9e3eba72f703f62d54d551cd3013f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:31 +0000
Subject: [PATCH 03/40] fix: interpolators are destroyed through their base
 class, which had no virtual destructor

---
 src/MathUtils/Interp1d.h | 2 ++
 src/MathUtils/Interp2d.h | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/MathUtils/Interp1d.h b/src/MathUtils/Interp1d.h
index ef607cb..a1b8d37 100644
--- a/src/MathUtils/Interp1d.h
+++ b/src/MathUtils/Interp1d.h
@@ -28,6 +28,8 @@ namespace mathutils {
 
    public:
 
+    virtual ~Interp1d() = default;
+
     YScalar Eval(XReal x) const {return PrivEval(x);};
 
     std::vector<YScalar> Eval(const std::vector<XReal> &xvector) const {
diff --git a/src/MathUtils/Interp2d.h b/src/MathUtils/Interp2d.h
index 74fc19c..5307aea 100644
--- a/src/MathUtils/Interp2d.h
+++ b/src/MathUtils/Interp2d.h
@@ -29,6 +29,7 @@ namespace mathutils {
     public:
 //        Interp2d() {};
 //        ~Interp2d() {};
+        virtual ~Interp2d() = default;
 
         virtual void Initialize(std::shared_ptr<const std::vector<Real>> x,
                                 std::shared_ptr<const std::vector<Real>> y,
-- 
2.43.0


From 4e6325565d1aa4c14245d5bc6112b4a7ab4e4ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:31 +0000
Subject: [PATCH 04/40] fix: re-initialising a linear interpolator kept the
 coefficients of the previous data

---
 src/MathUtils/Interp1d.h | 2 ++
 src/MathUtils/Interp2d.h | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/MathUtils/Interp1d.h b/src/MathUtils/Interp1d.h
index a1b8d37..5f684ed 100644
--- a/src/MathUtils/Interp1d.h
+++ b/src/MathUtils/Interp1d.h
@@ -150,6 +150,8 @@ namespace mathutils {
 
     Interp1d<XReal, YScalar>::Initialize(x, y);
 
+    a.clear();
+    b.clear();
     a.reserve(this->ndata);
     b.reserve(this->ndata);
 
diff --git a/src/MathUtils/Interp2d.h b/src/MathUtils/Interp2d.h
index 5307aea..9f98780 100644
--- a/src/MathUtils/Interp2d.h
+++ b/src/MathUtils/Interp2d.h
@@ -115,6 +115,10 @@ namespace mathutils {
 
         Interp2d<Real>::Initialize(x, y, data);
 
+        a1.clear();
+        a2.clear();
+        a3.clear();
+        a4.clear();
         a1.reserve(this->ndata);
         a2.reserve(this->ndata);
         a3.reserve(this->ndata);
-- 
2.43.0


From dcd9f31684f8f0d644a0eca25719d5a19781d988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:31 +0000
Subject: [PATCH 05/40] fix: linear extrapolation above the last abscissa read
 past the last segment

---
 src/MathUtils/Interp1d.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MathUtils/Interp1d.h b/src/MathUtils/Interp1d.h
index 5f684ed..f1d6610 100644
--- a/src/MathUtils/Interp1d.h
+++ b/src/MathUtils/Interp1d.h
@@ -182,6 +182,7 @@ namespace mathutils {
     auto index = std::distance(this->xcoord->begin(), upper);
 
     if (index == 0) index = 1;  // Bug fix for x == xmin
+    if (index == this->xcoord->size()) index -= 1;  // x > xmax: extrapolation from the last segment
 
     YScalar a_ = a.at(index - 1);
     YScalar b_ = b.at(index - 1);
-- 
2.43.0


From b5b3d18801e4094d21d404ab0f75239f8f5f1f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:31 +0000
Subject: [PATCH 06/40] fix: moving a LookupTable1D lost its interpolation
 method

---
 src/MathUtils/LookupTable1D.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/MathUtils/LookupTable1D.h b/src/MathUtils/LookupTable1D.h
index 1837128..ba10efc 100644
--- a/src/MathUtils/LookupTable1D.h
+++ b/src/MathUtils/LookupTable1D.h
@@ -42,6 +42,7 @@ namespace mathutils {
     /// Move constructor allowing to move the interpolators vector storing unique_ptr instances
     LookupTable1D &operator=(LookupTable1D &&table) {
       if (this != &table) {
+        interp_method = table.interp_method;
         Xcoords = std::move(table.Xcoords);
         assoc = std::move(table.assoc);
         Ydata = std::move(table.Ydata);
@@ -52,7 +53,8 @@ namespace mathutils {
 
     /// Move operator allowing to move the interpolators vector storing unique_ptr instances
     LookupTable1D(LookupTable1D &&table)
-        : Xcoords(std::move(table.Xcoords)),
+        : interp_method(table.interp_method),
+          Xcoords(std::move(table.Xcoords)),
           assoc(std::move(table.assoc)),
           Ydata(std::move(table.Ydata)),
           interpolators(std::move(table.interpolators)) {};
-- 
2.43.0


From c0d22ba49f82b18f508b375a12d030025a3f343a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:31 +0000
Subject: [PATCH 07/40] fix: LookupTable2d::Eval at a point given as a vector
 did not compile

---
 src/MathUtils/LookupTable2D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/LookupTable2D.h b/src/MathUtils/LookupTable2D.h
index 2bc6d3a..dcbdc7a 100644
--- a/src/MathUtils/LookupTable2D.h
+++ b/src/MathUtils/LookupTable2D.h
@@ -136,7 +136,7 @@ namespace mathutils {
 
     template <class Real>
     Real LookupTable2d<Real>::Eval(const std::string name, const std::vector<Real> coord) const {
-        return interpolators.at(GetIndex(name))->Eval(coord);
+        return interpolators.at(GetIndex(name))->Eval(coord.at(0), coord.at(1));
     }
 
     template <class Real>
-- 
2.43.0


From 56620d10524df954c0521b1ed1d764332976aa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:03 +0000
Subject: [PATCH 08/40] fix: copying a RegularGridInterpolator without data
 read outside of its grid or threw

---
 src/MathUtils/RegularGridInterpolator.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/MathUtils/RegularGridInterpolator.h b/src/MathUtils/RegularGridInterpolator.h
index 9635b18..03c69f6 100644
--- a/src/MathUtils/RegularGridInterpolator.h
+++ b/src/MathUtils/RegularGridInterpolator.h
@@ -118,7 +118,12 @@ RegularGridInterpolator<Real, _dim>::operator=(const RegularGridInterpolator &ot
   m_data.resize(ex);
   m_data = other.m_data;
 
-  _BuildInterpolator();
+  // An interpolator which has not received its data yet has nothing to build
+  if (other.IsValid()) {
+    _BuildInterpolator();
+  } else {
+    c_interpolator.reset();
+  }
   return *this;
 }
 
-- 
2.43.0


From 7ce1b53f8a94c2bbe2235b4c334e9d4cdf480c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:03 +0000
Subject: [PATCH 09/40] fix: data of the wrong size given to
 RegularGridInterpolator left it reading freed memory

---
 src/MathUtils/RegularGridInterpolator.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/MathUtils/RegularGridInterpolator.h b/src/MathUtils/RegularGridInterpolator.h
index 03c69f6..2a46134 100644
--- a/src/MathUtils/RegularGridInterpolator.h
+++ b/src/MathUtils/RegularGridInterpolator.h
@@ -153,6 +153,13 @@ void RegularGridInterpolator<Real, _dim>::AddVar(const NDArray &ndarray) {
     exit(EXIT_FAILURE);
   }
 
+  // Verifying that the data fit the grid before touching the current data
+  for (size_t dim = 0; dim < _dim; ++dim) {
+    if (ndarray.shape()[dim] != m_grid_list[dim].size()) {
+      throw std::invalid_argument("f has wrong size");
+    }
+  }
+
   // Copying the multi_array
   std::vector<size_t> ex;
   const size_t *shape = ndarray.shape();
-- 
2.43.0


From 698a07f5b2d50658109fe217603b57b2ff921f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:15 +0000
Subject: [PATCH 10/40] fix: RegularGridNearest::GetData had an empty body

---
 src/MathUtils/RegularGridNearest.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/RegularGridNearest.h b/src/MathUtils/RegularGridNearest.h
index 2bab210..eeb3098 100644
--- a/src/MathUtils/RegularGridNearest.h
+++ b/src/MathUtils/RegularGridNearest.h
@@ -179,7 +179,7 @@ namespace mathutils {
   template<typename Data_t, size_t _dim, typename Coord_t>
   Data_t
   RegularGridNearest<Data_t, _dim, Coord_t>::GetData(const std::array<Coord_t, _dim> &point) const {
-
+    return Nearest(point).val();
   }
 
 
-- 
2.43.0


From 8da50790539dc5197b85c6bde778edc254c92b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:15 +0000
Subject: [PATCH 11/40] fix: below the grid
 RegularGridNearest::GetSurroundingGridNodes returned the last nodes instead
 of the first

---
 src/MathUtils/RegularGridNearest.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/MathUtils/RegularGridNearest.h b/src/MathUtils/RegularGridNearest.h
index eeb3098..1cec43f 100644
--- a/src/MathUtils/RegularGridNearest.h
+++ b/src/MathUtils/RegularGridNearest.h
@@ -81,9 +81,9 @@ namespace mathutils {
     bool IsValid() const;
 
    private:
-    GridNode<Data_t, _dim, Coord_t> GetNode(const std::array<size_t, _dim> &cell_index, unsigned int v) const;
+    GridNode<Data_t, _dim, Coord_t> GetNode(const std::array<int, _dim> &cell_index, unsigned int v) const;
 
-    GridNode<Data_t, _dim, Coord_t> GetNode(const std::array<size_t, _dim> &cell_index,
+    GridNode<Data_t, _dim, Coord_t> GetNode(const std::array<int, _dim> &cell_index,
                                             const std::array<size_t, _dim> &v_index) const;
 
    private:
@@ -233,13 +233,13 @@ namespace mathutils {
     std::vector<GridNode<Data_t, _dim, Coord_t>> nodes;
     nodes.reserve(1 << _dim);
 
-    // Get the cell origin lower indices
-    std::array<size_t, _dim> indices;
+    // Get the cell origin lower indices (-1 before the first grid point)
+    std::array<int, _dim> indices;
 
     for (unsigned int dim = 0; dim < _dim; ++dim) {
       auto xi = point[dim];
 
-      unsigned int icell;
+      int icell;
 
       // Looking for the cell in which the xi point lies
       const auto &coord = m_grid_list[dim];
@@ -271,7 +271,7 @@ namespace mathutils {
 
   template<typename Data_t, size_t _dim, typename Coord_t>
   GridNode<Data_t, _dim, Coord_t>
-  RegularGridNearest<Data_t, _dim, Coord_t>::GetNode(const std::array<size_t, _dim> &cell_index, unsigned int v) const {
+  RegularGridNearest<Data_t, _dim, Coord_t>::GetNode(const std::array<int, _dim> &cell_index, unsigned int v) const {
     std::array<size_t, _dim> v_index;
     for (unsigned int dim = 0; dim < _dim; ++dim) {
       v_index[dim] = (v >> (_dim - dim - 1)) & 1;  // test if the i-th bit is set
@@ -281,7 +281,7 @@ namespace mathutils {
 
   template<typename Data_t, size_t _dim, typename Coord_t>
   GridNode<Data_t, _dim, Coord_t>
-  RegularGridNearest<Data_t, _dim, Coord_t>::GetNode(const std::array<size_t, _dim> &cell_index,
+  RegularGridNearest<Data_t, _dim, Coord_t>::GetNode(const std::array<int, _dim> &cell_index,
                                                      const std::array<size_t, _dim> &v_index) const {
 
     std::array<size_t, _dim> indices;
-- 
2.43.0


From c44299ab787d4a0a4c3a154a5cfc76cbe34e60b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:21 +0000
Subject: [PATCH 12/40] fix: IsSymmetric returned true for every matrix, so
 that the Cholesky decomposition accepted non symmetric ones

---
 src/MathUtils/Matrix.h   | 9 +--------
 src/MathUtils/Matrix33.h | 9 +--------
 src/MathUtils/Matrix66.h | 9 +--------
 3 files changed, 3 insertions(+), 24 deletions(-)

diff --git a/src/MathUtils/Matrix.h b/src/MathUtils/Matrix.h
index eb7821f..fe37d1a 100644
--- a/src/MathUtils/Matrix.h
+++ b/src/MathUtils/Matrix.h
@@ -286,14 +286,7 @@ namespace mathutils {
 
     template <class Scalar>
     bool MatrixMN<Scalar>::IsSymmetric() const {
-        auto a = this->isApprox(this->adjoint());
-        // FIXME: finir implementation :::
-//        auto a = (this->adjoint() == this);
-//        return this
-//        if (this->adjoint() == this) {
-//            return true;
-//        }
-        return true;
+        return IsSquare() && this->isApprox(this->adjoint());
     }
 
     template <class Scalar>
diff --git a/src/MathUtils/Matrix33.h b/src/MathUtils/Matrix33.h
index e0a5002..3e7cc22 100644
--- a/src/MathUtils/Matrix33.h
+++ b/src/MathUtils/Matrix33.h
@@ -279,14 +279,7 @@ namespace mathutils {
 
     template <class Scalar>
     bool Matrix33<Scalar>::IsSymmetric() const {
-        auto a = this->isApprox(this->adjoint());
-        // FIXME: finir implementation :::
-//        auto a = (this->adjoint() == this);
-//        return this
-//        if (this->adjoint() == this) {
-//            return true;
-//        }
-        return true;
+        return IsSquare() && this->isApprox(this->adjoint());
     }
 
     template <class Scalar>
diff --git a/src/MathUtils/Matrix66.h b/src/MathUtils/Matrix66.h
index 23f2b91..c2b89ee 100644
--- a/src/MathUtils/Matrix66.h
+++ b/src/MathUtils/Matrix66.h
@@ -272,14 +272,7 @@ namespace mathutils {
 
     template <class Scalar>
     bool Matrix66<Scalar>::IsSymmetric() const {
-        auto a = this->isApprox(this->adjoint());
-        // FIXME: finir implementation :::
-//        auto a = (this->adjoint() == this);
-//        return this
-//        if (this->adjoint() == this) {
-//            return true;
-//        }
-        return true;
+        return IsSquare() && this->isApprox(this->adjoint());
     }
 
     template <class Scalar>
-- 
2.43.0


From 5554b9f4d10951b4e0518a143d255acf9f642ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:21 +0000
Subject: [PATCH 13/40] fix: IsOrthogonal of the matrices did not compile

---
 src/MathUtils/Matrix.h   | 2 +-
 src/MathUtils/Matrix33.h | 2 +-
 src/MathUtils/Matrix66.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MathUtils/Matrix.h b/src/MathUtils/Matrix.h
index fe37d1a..e6ae19b 100644
--- a/src/MathUtils/Matrix.h
+++ b/src/MathUtils/Matrix.h
@@ -306,7 +306,7 @@ namespace mathutils {
 
     template <class Scalar>
     bool MatrixMN<Scalar>::IsOrthogonal() const {
-        return this->isOrthogonal(*this);
+        return IsSquare() && this->isUnitary();
     }
 
     template <class Scalar>
diff --git a/src/MathUtils/Matrix33.h b/src/MathUtils/Matrix33.h
index 3e7cc22..48d9dcb 100644
--- a/src/MathUtils/Matrix33.h
+++ b/src/MathUtils/Matrix33.h
@@ -294,7 +294,7 @@ namespace mathutils {
 
     template <class Scalar>
     bool Matrix33<Scalar>::IsOrthogonal() const {
-        return this->isOrthogonal(*this);
+        return IsSquare() && this->isUnitary();
     }
 
     template <class Scalar>
diff --git a/src/MathUtils/Matrix66.h b/src/MathUtils/Matrix66.h
index c2b89ee..c882b1a 100644
--- a/src/MathUtils/Matrix66.h
+++ b/src/MathUtils/Matrix66.h
@@ -287,7 +287,7 @@ namespace mathutils {
 
     template <class Scalar>
     bool Matrix66<Scalar>::IsOrthogonal() const {
-        return this->isOrthogonal(*this);
+        return IsSquare() && this->isUnitary();
     }
 
     template <class Scalar>
-- 
2.43.0


From 1435ebc7f1366f05e0c3d3e6dc0360781346aa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:21 +0000
Subject: [PATCH 14/40] fix: SVD and pseudo inverse of Matrix33 and Matrix66
 did not compile

---
 src/MathUtils/Matrix33.h | 12 ++++++------
 src/MathUtils/Matrix66.h | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/MathUtils/Matrix33.h b/src/MathUtils/Matrix33.h
index 48d9dcb..263a024 100644
--- a/src/MathUtils/Matrix33.h
+++ b/src/MathUtils/Matrix33.h
@@ -374,7 +374,7 @@ namespace mathutils {
     template <class Scalar>
     void Matrix33<Scalar>::GetSVDDecomposition(Matrix33<Scalar>& U, Matrix33<Scalar>& S, Matrix33<Scalar>& V) const {
 
-        auto SVD = this->jacobiSvd(Eigen::ComputeThinU | Eigen::ComputeThinV);
+        auto SVD = this->jacobiSvd(Eigen::ComputeFullU | Eigen::ComputeFullV);
 
         Eigen::Matrix<Scalar, 3, 3> Utmp, Stmp, Vtmp;
 
@@ -383,7 +383,7 @@ namespace mathutils {
         U = (Matrix33<Scalar>)(Utmp);
 
         // S
-        Stmp = SVD.singularValues();
+        Stmp = SVD.singularValues().asDiagonal();
         S = (Matrix33<Scalar>)(Stmp);
 
         // V
@@ -399,14 +399,14 @@ namespace mathutils {
         GetSVDDecomposition(U, S, V);
 
         for (unsigned int i=0; i < S.rows(); ++i) {
-            if (S(i) > tol) {
-                S(i) = 1. / S(i);
+            if (S(i, i) > tol) {
+                S(i, i) = 1. / S(i, i);
             } else {
-                S(i) = 0.;
+                S(i, i) = 0.;
             }
         }
 
-        return V * S.asDiagonal() * U.adjoint();
+        return V * S * U.adjoint();
     }
 
 
diff --git a/src/MathUtils/Matrix66.h b/src/MathUtils/Matrix66.h
index c882b1a..f66a48d 100644
--- a/src/MathUtils/Matrix66.h
+++ b/src/MathUtils/Matrix66.h
@@ -367,7 +367,7 @@ namespace mathutils {
     template <class Scalar>
     void Matrix66<Scalar>::GetSVDDecomposition(Matrix66<Scalar>& U, Matrix66<Scalar>& S, Matrix66<Scalar>& V) const {
 
-        auto SVD = this->jacobiSvd(Eigen::ComputeThinU | Eigen::ComputeThinV);
+        auto SVD = this->jacobiSvd(Eigen::ComputeFullU | Eigen::ComputeFullV);
 
         Eigen::Matrix<Scalar, 6, 6> Utmp, Stmp, Vtmp;
 
@@ -376,7 +376,7 @@ namespace mathutils {
         U = (Matrix66<Scalar>)(Utmp);
 
         // S
-        Stmp = SVD.singularValues();
+        Stmp = SVD.singularValues().asDiagonal();
         S = (Matrix66<Scalar>)(Stmp);
 
         // V
@@ -392,14 +392,14 @@ namespace mathutils {
         GetSVDDecomposition(U, S, V);
 
         for (unsigned int i=0; i < S.rows(); ++i) {
-            if (S(i) > tol) {
-                S(i) = 1. / S(i);
+            if (S(i, i) > tol) {
+                S(i, i) = 1. / S(i, i);
             } else {
-                S(i) = 0.;
+                S(i, i) = 0.;
             }
         }
 
-        return V * S.asDiagonal() * U.adjoint();
+        return V * S * U.adjoint();
     }
 
 
-- 
2.43.0


From ccb1b5f2317c9c1d4c9a2dd31187ceaf1ddc947d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:21 +0000
Subject: [PATCH 15/40] fix: LeastSquareSolver of Matrix33 and Matrix66
 aborted, thin SVD being for dynamic sizes only

---
 src/MathUtils/Matrix33.h | 2 +-
 src/MathUtils/Matrix66.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MathUtils/Matrix33.h b/src/MathUtils/Matrix33.h
index 263a024..2290dcd 100644
--- a/src/MathUtils/Matrix33.h
+++ b/src/MathUtils/Matrix33.h
@@ -145,7 +145,7 @@ namespace mathutils {
       // A typename has to be used because the rhs is not necessary a Matrix66.
       template<typename T>
       T LeastSquareSolver(const T& b) const {
-        return (this->bdcSvd(Eigen::ComputeThinU | Eigen::ComputeThinV).solve(b));
+        return (this->bdcSvd(Eigen::ComputeFullU | Eigen::ComputeFullV).solve(b));
       }
 
       // No LeastSquareSolverContraint because it requires the structure MatrixMN for C and d, which is not available here.
diff --git a/src/MathUtils/Matrix66.h b/src/MathUtils/Matrix66.h
index f66a48d..da127f4 100644
--- a/src/MathUtils/Matrix66.h
+++ b/src/MathUtils/Matrix66.h
@@ -143,7 +143,7 @@ namespace mathutils {
       // A typename has to be used because the rhs is not necessary a Matrix66.
       template<typename T>
       T LeastSquareSolver(const T& b) const {
-        return (this->bdcSvd(Eigen::ComputeThinU | Eigen::ComputeThinV).solve(b));
+        return (this->bdcSvd(Eigen::ComputeFullU | Eigen::ComputeFullV).solve(b));
       }
 
       // No LeastSquareSolverContraint because it requires the structure MatrixMN for C and d, which is not available here.
-- 
2.43.0


From a03598bae5bcdfc63ac66ed560b696a1e0348c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:21 +0000
Subject: [PATCH 16/40] fix: Eigenvalues of Matrix33 and Matrix66 did not
 compile

---
 src/MathUtils/Matrix33.h | 8 ++++----
 src/MathUtils/Matrix66.h | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/MathUtils/Matrix33.h b/src/MathUtils/Matrix33.h
index 2290dcd..9ac03a3 100644
--- a/src/MathUtils/Matrix33.h
+++ b/src/MathUtils/Matrix33.h
@@ -156,7 +156,7 @@ namespace mathutils {
       // =====================================================================
 
       // This method computes the eigenvalues only.
-      Matrix33<std::complex<double>> Eigenvalues() const;
+      Eigen::Matrix<std::complex<double>, 3, 1> Eigenvalues() const;
 
     };
 
@@ -411,7 +411,7 @@ namespace mathutils {
 
 
     template <class Scalar>
-    Matrix33<std::complex<double>> Matrix33<Scalar>::Eigenvalues() const{
+    Eigen::Matrix<std::complex<double>, 3, 1> Matrix33<Scalar>::Eigenvalues() const{
 
       // This method computes the eigenvalues only.
 
@@ -419,9 +419,9 @@ namespace mathutils {
       assert(this->GetNbRows() == this->GetNbCols());
 
       // Object to computing eigenvalues and eigenvectors.
-      Eigen::EigenSolver<Eigen::MatrixXd> es(*this, false);
+      Eigen::EigenSolver<Eigen::Matrix<double, 3, 3>> es(*this, false);
 
-      return Matrix33<std::complex<double>>(es.eigenvalues());
+      return Eigen::Matrix<std::complex<double>, 3, 1>(es.eigenvalues());
 
     }
 
diff --git a/src/MathUtils/Matrix66.h b/src/MathUtils/Matrix66.h
index da127f4..81072b1 100644
--- a/src/MathUtils/Matrix66.h
+++ b/src/MathUtils/Matrix66.h
@@ -154,7 +154,7 @@ namespace mathutils {
       // =====================================================================
 
       // This method computes the eigenvalues only.
-      Matrix66<std::complex<double>> Eigenvalues() const;
+      Eigen::Matrix<std::complex<double>, 6, 1> Eigenvalues() const;
 
     };
 
@@ -404,7 +404,7 @@ namespace mathutils {
 
 
   template <class Scalar>
-  Matrix66<std::complex<double>> Matrix66<Scalar>::Eigenvalues() const{
+  Eigen::Matrix<std::complex<double>, 6, 1> Matrix66<Scalar>::Eigenvalues() const{
 
     // This method computes the eigenvalues only.
 
@@ -412,9 +412,9 @@ namespace mathutils {
     assert(this->GetNbRows() == this->GetNbCols());
 
     // Object to computing eigenvalues and eigenvectors.
-    Eigen::EigenSolver<Eigen::MatrixXd> es(*this, false);
+    Eigen::EigenSolver<Eigen::Matrix<double, 6, 6>> es(*this, false);
 
-    return Matrix66<std::complex<double>>(es.eigenvalues());
+    return Eigen::Matrix<std::complex<double>, 6, 1>(es.eigenvalues());
 
   }
 
-- 
2.43.0


From c625a15fd8b7f1765f5b311df81cabd82eabe8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:21 +0000
Subject: [PATCH 17/40] fix: Matrix66::at on a constant matrix was declared but
 not defined

---
 src/MathUtils/Matrix66.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/MathUtils/Matrix66.h b/src/MathUtils/Matrix66.h
index 81072b1..c2de8a0 100644
--- a/src/MathUtils/Matrix66.h
+++ b/src/MathUtils/Matrix66.h
@@ -197,6 +197,11 @@ namespace mathutils {
     // =================================================================================================================
     // =================================================================================================================
 
+    template <class Scalar>
+    inline Scalar Matrix66<Scalar>::at(unsigned int irow, unsigned int icol) const {
+        return this->operator()(irow, icol);
+    }
+
     template <class Scalar>
     inline Scalar& Matrix66<Scalar>::at(unsigned int irow, unsigned int icol) {
         return this->operator()(irow, icol);
-- 
2.43.0


From 95121f37115642e9da86695177a9fa039f73c2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:03 +0000
Subject: [PATCH 18/40] fix: Vector2d::infNorm ignored the sign of the
 components

---
 src/MathUtils/Vector2d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/Vector2d.h b/src/MathUtils/Vector2d.h
index 0cfec94..21903f8 100644
--- a/src/MathUtils/Vector2d.h
+++ b/src/MathUtils/Vector2d.h
@@ -220,7 +220,7 @@ namespace mathutils {
 
     template <class Scalar>
     Scalar Vector2d<Scalar>::infNorm() const {
-        return this->Eigen::Matrix<Scalar, 2, 1>::maxCoeff();
+        return this->Eigen::Matrix<Scalar, 2, 1>::template lpNorm<Eigen::Infinity>();
     }
 
     template <class Scalar>
-- 
2.43.0


From cb7a13a0c05fc7a597b3194f7dd2ac1b68b20614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:03 +0000
Subject: [PATCH 19/40] fix: Euler angles at gimbal lock were NaN or those of
 another rotation

---
 src/MathUtils/Geometry.h | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/MathUtils/Geometry.h b/src/MathUtils/Geometry.h
index 1ad4906..bbe57f8 100644
--- a/src/MathUtils/Geometry.h
+++ b/src/MathUtils/Geometry.h
@@ -12,10 +12,20 @@ namespace mathutils {
   inline Eigen::Vector3d quaternionToEulerAnglesZYX(const Eigen::Quaterniond& q)
   {
     Eigen::Vector3d euler_angles;
+    double sin_pitch = 2.0 * q.w() * q.y() - 2.0 * q.x() * q.z();
+    if (fabs(sin_pitch) > 1.0 - 1e-14) {
+      // Gimbal lock: roll and yaw are about the same axis, the roll is set to zero.
+      euler_angles(0) = 0.0;
+      euler_angles(1) = copysign(M_PI_2, sin_pitch);
+      euler_angles(2) = atan2(
+          2.0 * q.w() * q.z() - 2.0 * q.x() * q.y(),
+          q.w() * q.w() - q.x() * q.x() + q.y() * q.y() - q.z() * q.z());
+      return euler_angles;
+    }
     euler_angles(0) = atan2(
         2.0 * q.w() * q.x() + 2.0 * q.y() * q.z(),
         q.w() * q.w() - q.x() * q.x() - q.y() * q.y() + q.z() * q.z());
-    euler_angles(1) = -asin(2.0 * q.x() * q.z() - 2.0 * q.w() * q.y());
+    euler_angles(1) = asin(sin_pitch);
     euler_angles(2) = atan2(
         2.0 * q.w() * q.z() + 2.0 * q.x() * q.y(),
         q.w() * q.w() + q.x() * q.x() - q.y() * q.y() - q.z() * q.z());
@@ -39,9 +49,15 @@ namespace mathutils {
   inline Eigen::Vector3d rotationMatrixToEulerAnglesZYX(const Eigen::Matrix3d& R)
   {
     Eigen::Vector3d euler_angles;
+    double cos_pitch = sqrt(pow(R(2, 1), 2.0) + pow(R(2, 2), 2.0));
+    euler_angles(1) = -atan2(R(2, 0), cos_pitch);
+    if (cos_pitch < 1e-8) {
+      // Gimbal lock: roll and yaw are about the same axis, the roll is set to zero.
+      euler_angles(0) = 0.0;
+      euler_angles(2) = atan2(-R(0, 1), R(1, 1));
+      return euler_angles;
+    }
     euler_angles(0) = atan2(R(2, 1), R(2, 2));
-    euler_angles(1) = -atan2(R(2, 0),
-                             sqrt(pow(R(2, 1), 2.0) + pow(R(2, 2), 2.0)));
     euler_angles(2) = atan2(R(1, 0), R(0, 0));
     return euler_angles;
   }
-- 
2.43.0


From 9f1c32af94e3805d84734cc6c6201d6e64f261f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:35 +0000
Subject: [PATCH 20/40] fix: changing the method of Integrate1d kept the result
 of the previous one

---
 src/MathUtils/Integration1d.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/MathUtils/Integration1d.h b/src/MathUtils/Integration1d.h
index d1e8c83..dc46fa4 100644
--- a/src/MathUtils/Integration1d.h
+++ b/src/MathUtils/Integration1d.h
@@ -60,7 +60,10 @@ namespace mathutils {
             c_DataSource = VECTOR;
         }
 
-        void SetIntegrationMethod(INTEGRATION_METHOD method) { m_IntegrationMethod = method; }
+        void SetIntegrationMethod(INTEGRATION_METHOD method) {
+            m_IntegrationMethod = method;
+            c_Computed = false;
+        }
 
         INTEGRATION_METHOD GetIntegrationMethod() const { return m_IntegrationMethod; }
 
-- 
2.43.0


From e4d132f4b10bceaf32c6bb7003e0829029960ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:17 +0000
Subject: [PATCH 21/40] fix: the FFT of a signal of one sample wrote through a
 null pointer

---
 src/MathUtils/FFT.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/MathUtils/FFT.h b/src/MathUtils/FFT.h
index 57f5681..0f478e3 100644
--- a/src/MathUtils/FFT.h
+++ b/src/MathUtils/FFT.h
@@ -20,6 +20,10 @@ namespace mathutils {
         // TODO: voir pour un zero padding auto ?
         void fft(std::vector<std::complex<Scalar>>& freqVector, const std::vector<Scalar>& vector) {
             // TODO: voir le comportement si on ne donne pas vector en puissance de 2...
+            if (vector.size() == 1) { // The backend has no plan for this length, where the transform is the identity.
+                freqVector.assign(1, vector[0]);
+                return;
+            }
             this->fwd(freqVector, vector);
         }
 
@@ -27,11 +31,15 @@ namespace mathutils {
                  const std::vector<Scalar>& vector, const Scalar sampleFrequency, FREQUENCY_UNIT frequencyUnit=HERTZ) {
             // TODO: voir le comportement si on ne donne pas vector en puissance de 2...
             // TODO: fournir plutot le vecteur temps et e deduire directement la frequence d'echantilonnage
-            this->fwd(freqVector, vector);
+            fft(freqVector, vector);
             frequencies = GetFrequencyVector((unsigned int)vector.size(), sampleFrequency, frequencyUnit);
         }
 
         void ifft(std::vector<Scalar>& vector, const std::vector<std::complex<Scalar>>& freqVector) {
+            if (freqVector.size() == 1) { // See fft.
+                vector.assign(1, freqVector[0].real());
+                return;
+            }
             this->inv(vector, freqVector);
         }
 
-- 
2.43.0


From ed48dcb99b9f02787d79bda431d011350fce03af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:09 +0000
Subject: [PATCH 22/40] fix: the derivatives of J and I of non zero order were
 NaN at x = 0

---
 src/MathUtils/BoostFunctions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MathUtils/BoostFunctions.h b/src/MathUtils/BoostFunctions.h
index 98406a8..efa9983 100644
--- a/src/MathUtils/BoostFunctions.h
+++ b/src/MathUtils/BoostFunctions.h
@@ -31,7 +31,7 @@ namespace mathutils {
     if(order == 0) {
       return -boost::math::cyl_bessel_j(1, x); // J0' = -J1.
     } else {
-      return boost::math::cyl_bessel_j(order - 1, x) - (order / x) * boost::math::cyl_bessel_j(order, x);
+      return 0.5 * (boost::math::cyl_bessel_j(order - 1, x) - boost::math::cyl_bessel_j(order + 1, x)); // Also valid at x = 0.
     }
   }
 
@@ -63,7 +63,7 @@ namespace mathutils {
     if(order == 0) {
       return boost::math::cyl_bessel_i(1, x); // I0' = I1.
     } else {
-      return boost::math::cyl_bessel_i(order - 1, x) - (order / x) * boost::math::cyl_bessel_i(order, x);
+      return 0.5 * (boost::math::cyl_bessel_i(order - 1, x) + boost::math::cyl_bessel_i(order + 1, x)); // Also valid at x = 0.
     }
   }
 
-- 
2.43.0


From 9987867e0134dc2ac42947ff6f1356866ea13dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:09 +0000
Subject: [PATCH 23/40] fix: arange did not follow the step, went up to stop or
 past it and ignored start in its last value

---
 src/MathUtils/VectorGeneration.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/MathUtils/VectorGeneration.h b/src/MathUtils/VectorGeneration.h
index 82a220a..84fc5e6 100644
--- a/src/MathUtils/VectorGeneration.h
+++ b/src/MathUtils/VectorGeneration.h
@@ -46,10 +46,13 @@ namespace mathutils {
         assert (start < stop);
         assert (step > 0.);
 
-        auto num = floor((stop-start)/step);
-        auto final_stop = num * step;
+        auto num = (unsigned int)ceil((stop-start)/step);
 
-        return linspace(start, final_stop, (unsigned int)num);
+        std::vector<Real> out(num);
+        for (unsigned int i=0; i<num; ++i) {
+            out[i] = start + i*step;
+        }
+        return out;
     }
 
 
-- 
2.43.0


From 6a4503e765b721df5d387da1d49f69e5f2341a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:09 +0000
Subject: [PATCH 24/40] fix: Saturate rounded its value through a double

---
 src/MathUtils/Maths.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/Maths.h b/src/MathUtils/Maths.h
index d14ae07..0747899 100644
--- a/src/MathUtils/Maths.h
+++ b/src/MathUtils/Maths.h
@@ -14,7 +14,7 @@ namespace mathutils {
 
     template <class Scalar>
     inline Scalar Saturate(Scalar val, Scalar valMin, Scalar valMax) {
-        double valout = (val > valMax) ?  valMax : val;
+        Scalar valout = (val > valMax) ?  valMax : val;
         valout  = (valout<valMin) ? valMin : valout;
         return valout;
     }
-- 
2.43.0


From 376d9f662755b598c2a77c54872601322ee51950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:09 +0000
Subject: [PATCH 25/40] fix: Negate compiled for vectors of double only

---
 src/MathUtils/StdVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/StdVector.h b/src/MathUtils/StdVector.h
index d82a3d4..f05e7dd 100644
--- a/src/MathUtils/StdVector.h
+++ b/src/MathUtils/StdVector.h
@@ -95,7 +95,7 @@ namespace mathutils {
 
     template <class Scalar>
     inline void Negate(std::vector<Scalar>& v) {
-        Scale(v, -1.);
+        Scale<Scalar>(v, -1.);
     }
 
 }
-- 
2.43.0


From 6ce93b4f4d0f6d2f3e60edabe404e4cf9fa7a06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:09 +0000
Subject: [PATCH 26/40] fix: Dirac used the integer abs when <math.h> was not
 included before

---
 src/MathUtils/Functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/Functions.h b/src/MathUtils/Functions.h
index c1e431c..9108b16 100644
--- a/src/MathUtils/Functions.h
+++ b/src/MathUtils/Functions.h
@@ -65,7 +65,7 @@ namespace mathutils {
 
       std::vector<Real> out(n);
       for (unsigned long i=0; i<n; i++) {
-          if (abs(x[i] - x_impulse) < dx_2) { // FIXME: le critere n'est pas robuste
+          if (std::abs(x[i] - x_impulse) < dx_2) { // FIXME: le critere n'est pas robuste
               out[i] = height;
           } else {
               out[i] = 0.;
-- 
2.43.0


From 82b4ad90d076f314a7bc396bd8d16a88bbd9f553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:09 +0000
Subject: [PATCH 27/40] fix: the y-derivative of a triple power series at a
 predefined z was scaled with x instead of y

---
 src/MathUtils/PowerSeries3d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/PowerSeries3d.h b/src/MathUtils/PowerSeries3d.h
index d085734..c7ac335 100644
--- a/src/MathUtils/PowerSeries3d.h
+++ b/src/MathUtils/PowerSeries3d.h
@@ -436,7 +436,7 @@ namespace mathutils {
       double xunit = AffineTransformationSegmentToUnit_x(x);
       double yunit = AffineTransformationSegmentToUnit_y(y);
 
-      return Evaluate_derivative_y_unit_zunit_predefined(x, xunit, yunit, cij);
+      return Evaluate_derivative_y_unit_zunit_predefined(y, xunit, yunit, cij);
 
     }
 
-- 
2.43.0


From 66f420108e914d37b679d7291fea940d143e5707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:27 +0000
Subject: [PATCH 28/40] fix: computing the coefficients of a Chebyshev series
 again added them to the previous ones

---
 src/MathUtils/ChebyshevSeries1d.h | 1 +
 src/MathUtils/ChebyshevSeries2d.h | 1 +
 src/MathUtils/ChebyshevSeries3d.h | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/MathUtils/ChebyshevSeries1d.h b/src/MathUtils/ChebyshevSeries1d.h
index 845bac6..33d6fac 100644
--- a/src/MathUtils/ChebyshevSeries1d.h
+++ b/src/MathUtils/ChebyshevSeries1d.h
@@ -57,6 +57,7 @@ namespace mathutils {
       // aij.
       // The Clenshaw algorithm cannot be used as x_tilde and y_tilde depend on r and s.
       for (int i = 0; i <= m_order_x; ++i) {
+        m_ai(i) = 0.;
         for (int r = 0; r <= m_order_x; ++r) {
           double Ti = Chebyshev_polynomial(i, x_tilde.at(r));
           m_ai(i) += this->m_function->Evaluate(x.at(r)) * Ti;
diff --git a/src/MathUtils/ChebyshevSeries2d.h b/src/MathUtils/ChebyshevSeries2d.h
index eb3b21a..af24520 100644
--- a/src/MathUtils/ChebyshevSeries2d.h
+++ b/src/MathUtils/ChebyshevSeries2d.h
@@ -70,6 +70,7 @@ namespace mathutils {
       // The Clenshaw algorithm cannot be used as x_tilde and y_tilde depend on r and s.
       for (int i = 0; i <= m_order_x; ++i) {
         for (int j = 0; j <= m_order_y; ++j) {
+          m_aij(i, j) = 0.;
           for (int r = 0; r <= m_order_x; ++r) {
             double Ti = Chebyshev_polynomial(i, x_tilde.at(r));
             for (int s = 0; s <= m_order_y; ++s) {
diff --git a/src/MathUtils/ChebyshevSeries3d.h b/src/MathUtils/ChebyshevSeries3d.h
index 3369ba8..9dbc78b 100644
--- a/src/MathUtils/ChebyshevSeries3d.h
+++ b/src/MathUtils/ChebyshevSeries3d.h
@@ -83,6 +83,7 @@ namespace mathutils {
       for (int i = 0; i <= m_order_x; ++i) {
         for (int j = 0; j <= m_order_y; ++j) {
           for (int k = 0; k <= m_order_z; ++k) {
+            m_aijk.at(k)(i, j) = 0.;
             for (int r = 0; r <= m_order_x; ++r) {
               double xtilde = x_tilde.at(r);
               double Ti = Chebyshev_polynomial(i, xtilde);
-- 
2.43.0


From fa68d70f57331d765c0bb41a946157806631f380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:44 +0000
Subject: [PATCH 29/40] fix: a mistyped coefficient of the approximation of Ei
 on [6, 12]

---
 src/MathUtils/BoostFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/BoostFunctions.h b/src/MathUtils/BoostFunctions.h
index efa9983..3e9cf5c 100644
--- a/src/MathUtils/BoostFunctions.h
+++ b/src/MathUtils/BoostFunctions.h
@@ -289,7 +289,7 @@ namespace mathutils {
                                     1.052976392459015155422e1,
                                     -2.421106956980653511550e1,
                                     -2.378372882815725244124e0,
-                                    -2.645977793077147237806e0};
+                                    -2.645677793077147237806e0};
       std::vector<double> betaj = {1.249884822712447891440e0,
                                    -2.369210235636181001661e2,
                                    4.731097187816050252967e2,
-- 
2.43.0


From b2d239363f70cf37e3bc151e567e7ed36f8a2e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:44 +0000
Subject: [PATCH 30/40] fix: mistyped coefficients of the approximation of E1
 above 1, wrong by up to 1e-3

---
 src/MathUtils/BoostFunctions.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/MathUtils/BoostFunctions.h b/src/MathUtils/BoostFunctions.h
index 3e9cf5c..d1eed99 100644
--- a/src/MathUtils/BoostFunctions.h
+++ b/src/MathUtils/BoostFunctions.h
@@ -484,11 +484,11 @@ namespace mathutils {
       std::vector<double> pj = {1.737331760720576030932e-8,
                                 9.999989642347613068437e-1,
                                 1.487967702840464066613e1,
-                                7.633628873405946890896e1,
+                                7.633628843705946890896e1,
                                 1.698106763764238382705e2,
                                 1.700632978311516129328e2,
                                 7.246689782858597021199e1,
-                                1.10732662778631743809e1,
+                                1.107326627786831743809e1,
                                 3.828573121022477169108e-1};
       std::vector<double> qj = {1.000000000000000000000e0,
                                 1.587964570758947927903e1,
@@ -530,11 +530,11 @@ namespace mathutils {
                                 5.4199632588522559414924e1,
                                 1.1635769915320848035459e3,
                                 1.2842808586627297365998e4,
-                                7.9231787645279043698718e4,
+                                7.9231787945279043698718e4,
                                 2.7858134710520842139357e5,
                                 5.4616842050691155735758e5,
                                 5.5903756210022864003380e5,
-                                5.5989762083608489777411e5,
+                                2.5989762083608489777411e5,
                                 3.9147856245556345627078e4};
       assert (pj.size() == qj.size());
 
-- 
2.43.0


From 7330c53e342865d04448e9c7cc996ac1fb8846bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:51 +0000
Subject: [PATCH 31/40] fix: version.h could be included in a single
 translation unit, its functions not being inline

---
 src/MathUtils/version.h.in | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/MathUtils/version.h.in b/src/MathUtils/version.h.in
index 388f87e..32a6617 100644
--- a/src/MathUtils/version.h.in
+++ b/src/MathUtils/version.h.in
@@ -18,48 +18,48 @@ namespace mathutils {
     // Is the metadata populated? We may not have metadata if
     // there wasn't a .git directory (e.g. downloaded source
     // code without revision history).
-    bool IsPopulated() {
+    inline bool IsPopulated() {
       return @GIT_RETRIEVED_STATE@;
     }
 
     // Were there any uncommitted changes that won't be reflected
     // in the CommitID?
-    bool AnyUncommittedChanges() {
+    inline bool AnyUncommittedChanges() {
       return @GIT_IS_DIRTY@;
     }
 
     // The commit author's name.
-    std::string AuthorName() {
+    inline std::string AuthorName() {
       return u8"@GIT_AUTHOR_NAME@";
     }
 
     // The commit author's email.
-    std::string AuthorEmail() {
+    inline std::string AuthorEmail() {
       return "@GIT_AUTHOR_EMAIL@";
     }
 
     // The commit SHA1.
-    std::string CommitSHA1() {
+    inline std::string CommitSHA1() {
       return "@GIT_HEAD_SHA1@";
     }
 
     // The ISO8601 commit date.
-    std::string CommitDate() {
+    inline std::string CommitDate() {
       return "@GIT_COMMIT_DATE_ISO8601@";
     }
 
     // The last tag past this commit
-    std::string LastTag() {
+    inline std::string LastTag() {
       return "@GIT_LAST_TAG@";
     }
 
     // The current branch where the current commit lies
-    std::string CurrentBranch() {
+    inline std::string CurrentBranch() {
       return "@GIT_CURRENT_BRANCH@";
     }
 
     // Get the normalized version string
-    std::string GetNormalizedVersionString() {
+    inline std::string GetNormalizedVersionString() {
       std::string version("@GIT_LAST_TAG@");
 
       auto cur_branch = CurrentBranch();
@@ -80,7 +80,7 @@ namespace mathutils {
     }
 
     // The project name as seen by CMake
-    std::string ProjectName() {
+    inline std::string ProjectName() {
       return "@PROJECT_NAME@";
     }
 
-- 
2.43.0


From d4dc40e6f399dfef53f91c373c4f0031322ded03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:17 +0000
Subject: [PATCH 32/40] fix: version.h did not compile when the name of the
 author holds quotes

---
 cmake/git_watcher.cmake | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmake/git_watcher.cmake b/cmake/git_watcher.cmake
index c52e6df..e88b853 100644
--- a/cmake/git_watcher.cmake
+++ b/cmake/git_watcher.cmake
@@ -147,6 +147,8 @@ function(GetGitState _working_dir)
 
     RunGitCommand(show -s "--format=%an" ${object})
     if(exit_code EQUAL 0)
+        # Escape quotes
+        string(REPLACE "\"" "\\\"" output "${output}")
         set(ENV{GIT_AUTHOR_NAME} "${output}")
     endif()
 
-- 
2.43.0


From 622ebfb042570b0ba0be72c4434b18eb5d258c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:28 +0000
Subject: [PATCH 33/40] fix: twelve headers could not be included alone, for
 lack of the headers they use

---
 src/MathUtils/BoostFunctions.h    | 4 ++++
 src/MathUtils/ChebyshevSeries1d.h | 1 +
 src/MathUtils/Check.h             | 1 +
 src/MathUtils/Complex.h           | 5 +++++
 src/MathUtils/Constants.h         | 1 +
 src/MathUtils/Convolution.h       | 3 +++
 src/MathUtils/Integrand.h         | 2 ++
 src/MathUtils/Integration1d.h     | 2 ++
 src/MathUtils/Maths.h             | 2 ++
 src/MathUtils/Polynomial.h        | 2 ++
 src/MathUtils/PowerSeries1d.h     | 1 +
 src/MathUtils/StdVector.h         | 4 ++++
 12 files changed, 28 insertions(+)

diff --git a/src/MathUtils/BoostFunctions.h b/src/MathUtils/BoostFunctions.h
index d1eed99..fe077ea 100644
--- a/src/MathUtils/BoostFunctions.h
+++ b/src/MathUtils/BoostFunctions.h
@@ -5,6 +5,10 @@
 #ifndef MATHUTILS_BOOSTFUNCTIONS_H
 #define MATHUTILS_BOOSTFUNCTIONS_H
 
+#include <complex>
+#include <iostream>
+#include "Constants.h"
+#include "Check.h"
 #include "StdVector.h"
 #include <boost/math/special_functions/bessel.hpp>
 #include <boost/math/special_functions/hankel.hpp>
diff --git a/src/MathUtils/ChebyshevSeries1d.h b/src/MathUtils/ChebyshevSeries1d.h
index 33d6fac..cccee69 100644
--- a/src/MathUtils/ChebyshevSeries1d.h
+++ b/src/MathUtils/ChebyshevSeries1d.h
@@ -7,6 +7,7 @@
 
 #include <memory>
 #include "Matrix.h"
+#include "VectorN.h"
 #include "BoostFunctions.h"
 
 namespace mathutils {
diff --git a/src/MathUtils/Check.h b/src/MathUtils/Check.h
index fa0a2ca..b51f646 100644
--- a/src/MathUtils/Check.h
+++ b/src/MathUtils/Check.h
@@ -5,6 +5,7 @@
 #ifndef MATHUTILS_CHECK_H
 #define MATHUTILS_CHECK_H
 
+#include <cassert>
 #include <cmath>
 #include <vector>
 
diff --git a/src/MathUtils/Complex.h b/src/MathUtils/Complex.h
index e92abbd..c1a813f 100644
--- a/src/MathUtils/Complex.h
+++ b/src/MathUtils/Complex.h
@@ -5,6 +5,11 @@
 #ifndef MATHUTILS_COMPLEX_H
 #define MATHUTILS_COMPLEX_H
 
+#include <cmath>
+#include <complex>
+#include <vector>
+#include "Unit.h"
+
 namespace mathutils {
 
     template <class Real_t>
diff --git a/src/MathUtils/Constants.h b/src/MathUtils/Constants.h
index 1407388..f2a9048 100644
--- a/src/MathUtils/Constants.h
+++ b/src/MathUtils/Constants.h
@@ -6,6 +6,7 @@
 #define MATHUTILS_CONSTANTS_H
 
 #include <cmath>
+#include <complex>
 
 #ifndef M_PI
     #define M_PI       3.14159265358979323846
diff --git a/src/MathUtils/Convolution.h b/src/MathUtils/Convolution.h
index 2d7fbd9..3353344 100644
--- a/src/MathUtils/Convolution.h
+++ b/src/MathUtils/Convolution.h
@@ -5,7 +5,10 @@
 #ifndef MATHUTILS_CONVOLUTION_H
 #define MATHUTILS_CONVOLUTION_H
 
+#include <cassert>
+#include <vector>
 #include "boost/circular_buffer.hpp"
+#include "Integration1d.h"
 //#include "matplotlibcpp.h"
 
 namespace mathutils {
diff --git a/src/MathUtils/Integrand.h b/src/MathUtils/Integrand.h
index c37d7e4..2d151e0 100644
--- a/src/MathUtils/Integrand.h
+++ b/src/MathUtils/Integrand.h
@@ -5,6 +5,8 @@
 #ifndef MATHUTILS_INTEGRAND_H
 #define MATHUTILS_INTEGRAND_H
 
+#include "Vector3d.h"
+
 namespace mathutils {
 
   /**
diff --git a/src/MathUtils/Integration1d.h b/src/MathUtils/Integration1d.h
index dc46fa4..0d305df 100644
--- a/src/MathUtils/Integration1d.h
+++ b/src/MathUtils/Integration1d.h
@@ -5,6 +5,8 @@
 #ifndef MATHUTILS_INTEGRATION1D_H
 #define MATHUTILS_INTEGRATION1D_H
 
+#include <cassert>
+#include <stdexcept>
 #include <vector>
 
 namespace mathutils {
diff --git a/src/MathUtils/Maths.h b/src/MathUtils/Maths.h
index 0747899..7718625 100644
--- a/src/MathUtils/Maths.h
+++ b/src/MathUtils/Maths.h
@@ -5,6 +5,8 @@
 #ifndef MATHUTILS_MATHS_H
 #define MATHUTILS_MATHS_H
 
+#include <cmath>
+
 namespace mathutils {
 
     template <typename T>
diff --git a/src/MathUtils/Polynomial.h b/src/MathUtils/Polynomial.h
index 7b27f27..5646bb9 100644
--- a/src/MathUtils/Polynomial.h
+++ b/src/MathUtils/Polynomial.h
@@ -5,6 +5,8 @@
 #ifndef MATHUTILS_POLYNOMIAL_H
 #define MATHUTILS_POLYNOMIAL_H
 
+#include <vector>
+
 namespace mathutils {
 
   template<typename T>
diff --git a/src/MathUtils/PowerSeries1d.h b/src/MathUtils/PowerSeries1d.h
index f4c87a5..59861a9 100644
--- a/src/MathUtils/PowerSeries1d.h
+++ b/src/MathUtils/PowerSeries1d.h
@@ -6,6 +6,7 @@
 #define MATHUTILS_POWERSERIES1D_H
 
 #include "Matrix.h"
+#include "VectorN.h"
 #include "Polynomial.h"
 #include "Functions.h"
 
diff --git a/src/MathUtils/StdVector.h b/src/MathUtils/StdVector.h
index f05e7dd..6f8d500 100644
--- a/src/MathUtils/StdVector.h
+++ b/src/MathUtils/StdVector.h
@@ -5,6 +5,10 @@
 #ifndef MATHUTILS_STDVECTOR_H
 #define MATHUTILS_STDVECTOR_H
 
+#include <cassert>
+#include <cmath>
+#include <vector>
+
 namespace mathutils {
 
     // TODO: rappatrier la fonction ZeroPad...
-- 
2.43.0


From 996a3c3a9f697461054c3b413a1977a723c54699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:28 +0000
Subject: [PATCH 34/40] fix: the reference-counted constructors of the
 n-dimensional interpolators did not compile

---
 src/MathUtils/thirdparty/linterp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/thirdparty/linterp.h b/src/MathUtils/thirdparty/linterp.h
index 2145eec..221adaf 100644
--- a/src/MathUtils/thirdparty/linterp.h
+++ b/src/MathUtils/thirdparty/linterp.h
@@ -139,7 +139,7 @@ class NDInterpolator {
     }
   }
 
-  template<class IterT1, class RefCountIterT>
+  template<class RefCountIterT>
   void set_grids_refcount(RefCountIterT refs_begin, RefCountIterT refs_end) {
     assert(refs_end - refs_begin == N);
     m_grid_ref_list.assign(refs_begin, refs_begin + N);
-- 
2.43.0


From 1b8f817f27a857046c362c24a74dceadb9419dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:13 +0000
Subject: [PATCH 35/40] fix: discontinuous data of two or more dimensions given
 to the n-dimensional interpolators had to have a wrong size, and were read
 past their end

---
 src/MathUtils/thirdparty/linterp.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/MathUtils/thirdparty/linterp.h b/src/MathUtils/thirdparty/linterp.h
index 221adaf..98c046b 100644
--- a/src/MathUtils/thirdparty/linterp.h
+++ b/src/MathUtils/thirdparty/linterp.h
@@ -152,16 +152,14 @@ class NDInterpolator {
     array<int, N> sizes;
     for (unsigned int i = 0; i < m_grid_list.size(); i++) {
       sizes[i] = m_grid_list[i].size();
+      if (!m_bContinuous) { sizes[i] *= 2; }
       nGridPoints *= sizes[i];
     }
 
     int f_len = f_end - f_begin;
-    if ((m_bContinuous && f_len != nGridPoints) || (!m_bContinuous && f_len != 2 * nGridPoints)) {
+    if (f_len != nGridPoints) {
       throw std::invalid_argument("f has wrong size");
     }
-    for (unsigned int i = 0; i < m_grid_list.size(); i++) {
-      if (!m_bContinuous) { sizes[i] *= 2; }
-    }
 
     m_F_copy.clear();
     if (bCopy == false) {
-- 
2.43.0


From 978d837959820d3491d42b955953111be60f0354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:12 +0000
Subject: [PATCH 36/40] fix: the least squares solver of dynamic matrices was
 wrong for repeated singular values from 16 columns on

---
 src/MathUtils/Matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/Matrix.h b/src/MathUtils/Matrix.h
index e6ae19b..aa3b617 100644
--- a/src/MathUtils/Matrix.h
+++ b/src/MathUtils/Matrix.h
@@ -472,7 +472,7 @@ namespace mathutils {
 
     template <class Scalar>
     MatrixMN<Scalar> MatrixMN<Scalar>::LeastSquareSolver(const MatrixMN<Scalar>& b) const {
-      return (this->bdcSvd(Eigen::ComputeThinU | Eigen::ComputeThinV).solve(b));
+      return (this->jacobiSvd(Eigen::ComputeThinU | Eigen::ComputeThinV).solve(b));
     }
 
     template <class Scalar>
-- 
2.43.0


From e421b9fd96c2bd140d2a63c0c50ddd50d1480cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:57 +0000
Subject: [PATCH 37/40] fix: TransportAtPoint gave a wrong velocity when the
 point is the vector or the output

---
 src/MathUtils/Vector2d.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/MathUtils/Vector2d.h b/src/MathUtils/Vector2d.h
index 21903f8..0d7d3b5 100644
--- a/src/MathUtils/Vector2d.h
+++ b/src/MathUtils/Vector2d.h
@@ -226,8 +226,9 @@ namespace mathutils {
     template <class Scalar>
     inline void Vector2d<Scalar>::TransportAtPoint(Vector2d<Scalar>& out, const Vector2d<Scalar>& point,
                                                    Scalar pw, FREQUENCY_UNIT funit) const {
-        out = *this;
-        out.TransportAtPoint(point, pw, funit);
+        Vector2d<Scalar> transported(*this); // out may be the point
+        transported.TransportAtPoint(point, pw, funit);
+        out = transported;
     }
 
     template <class Scalar>
@@ -238,8 +239,9 @@ namespace mathutils {
             w = convert_frequency(w, funit, RADS);
         }
 
-        at(0) = at(0) - point[1] * w;
+        auto x = at(0) - point[1] * w; // the point may be this vector
         at(1) = at(1) + point[0] * w;
+        at(0) = x;
     }
 
     template <class Scalar>
-- 
2.43.0


From 9bc25b6e45c3d5af254b562fcb8d7c02169e379a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:23 +0000
Subject: [PATCH 38/40] fix: a series refused by its interpolator stayed half
 registered in the lookup tables

---
 src/MathUtils/LookupTable1D.h | 37 +++++++++++++----------------------
 src/MathUtils/LookupTable2D.h | 26 +++++++++++-------------
 2 files changed, 25 insertions(+), 38 deletions(-)

diff --git a/src/MathUtils/LookupTable1D.h b/src/MathUtils/LookupTable1D.h
index ba10efc..9ac6c63 100644
--- a/src/MathUtils/LookupTable1D.h
+++ b/src/MathUtils/LookupTable1D.h
@@ -106,35 +106,26 @@ namespace mathutils {
   template<class Xscalar, class Yscalar>
   bool LookupTable1D<Xscalar, Yscalar>::AddY(const std::string name, const std::vector<Yscalar> Y) {
     // TODO: verifier qu'on a le meme nombre d'elt que dans X...
-    // Get the future position of the new Serie
-    auto i = GetNbSeries();
-
-    // Trying to insert the new name/index into the association map
-    auto res_pair = assoc.insert(std::pair<std::string, unsigned long>(name, i));
-
-    if (!res_pair.second) { // Name already exists into the map
+    if (assoc.find(name) != assoc.end()) { // Name already exists into the map
       std::cout << "Data have not been added to the LUT" << std::endl;
+      return false;
+    }
 
-    } else {
-      // We can add data
-      auto Y_shared = std::make_shared<std::vector<Yscalar>>(Y);
-      Ydata.push_back(Y_shared);
-
-      // Building the interpolator based on the global interpolation method of the LUT
-      auto interp_ptr = Interp1d<Xscalar, Yscalar>::MakeInterp1d(interp_method);
-      // FIXME: ICI, on ne recupere pas comme voulu un pointeur vers un objet FrInterp1dLinear
-      // Du coup, la methode Initialize appelee apres n'est que celle de
-
-      // Initializing the interpolator
-      interp_ptr->Initialize(Xcoords, Y_shared);
+    // The interpolator may refuse the data: the table is changed once it is built.
+    auto Y_shared = std::make_shared<std::vector<Yscalar>>(Y);
 
-      auto interp_unique = std::unique_ptr<Interp1d<Xscalar, Yscalar>>(interp_ptr);
+    // Building the interpolator based on the global interpolation method of the LUT
+    auto interp_unique = std::unique_ptr<Interp1d<Xscalar, Yscalar>>(
+        Interp1d<Xscalar, Yscalar>::MakeInterp1d(interp_method));
 
-      interpolators.push_back(std::move(interp_unique));
+    // Initializing the interpolator
+    interp_unique->Initialize(Xcoords, Y_shared);
 
-    }
+    assoc.insert(std::pair<std::string, unsigned long>(name, GetNbSeries()));
+    Ydata.push_back(Y_shared);
+    interpolators.push_back(std::move(interp_unique));
 
-    return res_pair.second;
+    return true;
   }
 
   template<class Xscalar, class Yscalar>
diff --git a/src/MathUtils/LookupTable2D.h b/src/MathUtils/LookupTable2D.h
index dcbdc7a..8fab5ee 100644
--- a/src/MathUtils/LookupTable2D.h
+++ b/src/MathUtils/LookupTable2D.h
@@ -106,27 +106,23 @@ namespace mathutils {
     template <class Real>
     bool LookupTable2d<Real>::AddData(const std::string name, const std::vector<Real> Data) {
 
-        auto i = GetNbSeries();
-
-        auto res_pair = assoc.insert(std::pair<std::string, unsigned long>(name, i));
-
-        if (!res_pair.second) {
+        if (HasSerie(name)) {
             std::cout << "Data have not been added to the LUT" << std::endl;
-        } else {
-
-            auto Data_shared = std::make_shared<std::vector<Real>>(Data);
-            MData.push_back(Data_shared);
+            return false;
+        }
 
-            auto interp_ptr = Interp2d<Real>::MakeInterp2d(interp_method);
+        // The interpolator may refuse the method or the data: the table is changed once it is built.
+        auto Data_shared = std::make_shared<std::vector<Real>>(Data);
 
-            interp_ptr->Initialize(Xcoords, Ycoords, Data_shared);
+        auto interp_unique = std::unique_ptr<Interp2d<Real>>(Interp2d<Real>::MakeInterp2d(interp_method));
 
-            auto interp_unique = std::unique_ptr<Interp2d< Real>>(interp_ptr);
+        interp_unique->Initialize(Xcoords, Ycoords, Data_shared);
 
-            interpolators.push_back(std::move(interp_unique));
-        }
+        assoc.insert(std::pair<std::string, unsigned long>(name, GetNbSeries()));
+        MData.push_back(Data_shared);
+        interpolators.push_back(std::move(interp_unique));
 
-        return res_pair.second;
+        return true;
     }
 
     template <class Real>
-- 
2.43.0


From b7ae243a06118f2ae19011a3e60b39211d2b730e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:48 +0000
Subject: [PATCH 39/40] fix: the limits of a grid interpolator were unset or
 stale until its data were added

---
 src/MathUtils/RegularGridInterpolator.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/MathUtils/RegularGridInterpolator.h b/src/MathUtils/RegularGridInterpolator.h
index 2a46134..2a21e14 100644
--- a/src/MathUtils/RegularGridInterpolator.h
+++ b/src/MathUtils/RegularGridInterpolator.h
@@ -111,6 +111,7 @@ RegularGridInterpolator<Real, _dim> &
 RegularGridInterpolator<Real, _dim>::operator=(const RegularGridInterpolator &other) {
 
   m_grid_list = other.m_grid_list;
+  m_limits = other.m_limits;
 
   std::vector<size_t> ex;
   const size_t *shape = other.m_data.shape();
@@ -141,6 +142,9 @@ void RegularGridInterpolator<Real, _dim>::AddCoord(const std::vector<Real> &vec)
     }
   }
 
+  if (!vec.empty()) {
+    m_limits[m_grid_list.size()] = std::make_pair(vec.front(), vec.back());
+  }
   m_grid_list.push_back(vec);
 }
 
-- 
2.43.0


From 06b16675abfdefae2531441a77b43565b1df44f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:02 +0000
Subject: [PATCH 40/40] fix: eigenvalues were meaningless when the real Schur
 decomposition did not converge

---
 src/MathUtils/EigenDense.h | 29 +++++++++++++++++++++++++++++
 src/MathUtils/Matrix.h     |  7 ++-----
 src/MathUtils/Matrix33.h   |  7 ++-----
 src/MathUtils/Matrix66.h   |  7 ++-----
 4 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/src/MathUtils/EigenDense.h b/src/MathUtils/EigenDense.h
index 1f6a93d..1026c88 100644
--- a/src/MathUtils/EigenDense.h
+++ b/src/MathUtils/EigenDense.h
@@ -5,6 +5,35 @@
 #ifndef FRYDOM_EIGENDENSE_H
 #define FRYDOM_EIGENDENSE_H
 
+#include <complex>
+#include <limits>
+
 #include "Eigen/Dense"
 
+namespace mathutils {
+    namespace internal {
+
+        // Eigenvalues of a square real matrix. The iterations of the real Schur decomposition do not converge for every
+        // matrix, in which case its result is meaningless: the complex decomposition is then used instead.
+        template <class Derived>
+        Eigen::Matrix<std::complex<typename Derived::Scalar>, Derived::RowsAtCompileTime, 1>
+        ComputeEigenvalues(const Eigen::MatrixBase<Derived>& matrix) {
+
+            using Scalar = typename Derived::Scalar;
+            using Real = Eigen::Matrix<Scalar, Derived::RowsAtCompileTime, Derived::ColsAtCompileTime>;
+            using Complex = Eigen::Matrix<std::complex<Scalar>, Derived::RowsAtCompileTime, Derived::ColsAtCompileTime>;
+            using Values = Eigen::Matrix<std::complex<Scalar>, Derived::RowsAtCompileTime, 1>;
+
+            Eigen::EigenSolver<Real> es(matrix, false);
+            if (es.info() == Eigen::Success) return es.eigenvalues();
+
+            Eigen::ComplexEigenSolver<Complex> ces(matrix.template cast<std::complex<Scalar>>(), false);
+            if (ces.info() == Eigen::Success) return ces.eigenvalues();
+
+            return Values::Constant(matrix.rows(), std::numeric_limits<Scalar>::quiet_NaN());
+        }
+
+    }  // end namespace internal
+}  // end namespace mathutils
+
 #endif //FRYDOM_EIGENDENSE_H
diff --git a/src/MathUtils/Matrix.h b/src/MathUtils/Matrix.h
index aa3b617..966646f 100644
--- a/src/MathUtils/Matrix.h
+++ b/src/MathUtils/Matrix.h
@@ -281,7 +281,7 @@ namespace mathutils {
 
     template <class Scalar>
     bool MatrixMN<Scalar>::IsPositiveSemiDefinite(const Scalar& epsilon) const {
-        return (this->rows() == this->cols()) && ((this->eigenvalues().real().array() > -epsilon).all());
+        return (this->rows() == this->cols()) && ((internal::ComputeEigenvalues(*this).real().array() > -epsilon).all());
     }
 
     template <class Scalar>
@@ -537,10 +537,7 @@ namespace mathutils {
         // Verification.
         assert(this->GetNbRows() == this->GetNbCols());
 
-        // Object to computing eigenvalues and eigenvectors.
-        Eigen::EigenSolver<Eigen::MatrixXd> es(*this, false);
-
-        return MatrixMN<std::complex<double>>(es.eigenvalues());
+        return MatrixMN<std::complex<double>>(internal::ComputeEigenvalues(*this));
 
     }
 
diff --git a/src/MathUtils/Matrix33.h b/src/MathUtils/Matrix33.h
index 9ac03a3..bf4074b 100644
--- a/src/MathUtils/Matrix33.h
+++ b/src/MathUtils/Matrix33.h
@@ -274,7 +274,7 @@ namespace mathutils {
 
     template <class Scalar>
     bool Matrix33<Scalar>::IsPositiveSemiDefinite(const Scalar& epsilon) const {
-        return (this->rows() == this->cols()) && ((this->eigenvalues().real().array() > -epsilon).all());
+        return (this->rows() == this->cols()) && ((internal::ComputeEigenvalues(*this).real().array() > -epsilon).all());
     }
 
     template <class Scalar>
@@ -418,10 +418,7 @@ namespace mathutils {
       // Verification.
       assert(this->GetNbRows() == this->GetNbCols());
 
-      // Object to computing eigenvalues and eigenvectors.
-      Eigen::EigenSolver<Eigen::Matrix<double, 3, 3>> es(*this, false);
-
-      return Eigen::Matrix<std::complex<double>, 3, 1>(es.eigenvalues());
+      return Eigen::Matrix<std::complex<double>, 3, 1>(internal::ComputeEigenvalues(*this));
 
     }
 
diff --git a/src/MathUtils/Matrix66.h b/src/MathUtils/Matrix66.h
index c2de8a0..8b1f3cd 100644
--- a/src/MathUtils/Matrix66.h
+++ b/src/MathUtils/Matrix66.h
@@ -272,7 +272,7 @@ namespace mathutils {
 
     template <class Scalar>
     bool Matrix66<Scalar>::IsPositiveSemiDefinite(const Scalar& epsilon) const {
-        return (this->rows() == this->cols()) && ((this->eigenvalues().real().array() > -epsilon).all());
+        return (this->rows() == this->cols()) && ((internal::ComputeEigenvalues(*this).real().array() > -epsilon).all());
     }
 
     template <class Scalar>
@@ -416,10 +416,7 @@ namespace mathutils {
     // Verification.
     assert(this->GetNbRows() == this->GetNbCols());
 
-    // Object to computing eigenvalues and eigenvectors.
-    Eigen::EigenSolver<Eigen::Matrix<double, 6, 6>> es(*this, false);
-
-    return Eigen::Matrix<std::complex<double>, 6, 1>(es.eigenvalues());
+    return Eigen::Matrix<std::complex<double>, 6, 1>(internal::ComputeEigenvalues(*this));
 
   }
 
-- 
2.43.0

