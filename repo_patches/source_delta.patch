From 26f5d96a7073878ba76d3e6fe23d22460128bc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:47 +0000
Subject: [PATCH 01/48] fix: fused evaluation of composite spaces fills every
 element's block

internalFem3DApply divided the per-part column count by the fusion number and ran
the multi-element product inside the loop over elements, so for fused elements of a
space with several parts the result was incomplete and the scratch was overrun.
---
 anifem++/fem/operations/core.inl | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/anifem++/fem/operations/core.inl b/anifem++/fem/operations/core.inl
index 4948cac..6fe863a 100644
--- a/anifem++/fem/operations/core.inl
+++ b/anifem++/fem/operations/core.inl
@@ -385,18 +385,19 @@ template<typename MatrTpXY0, typename Scalar, typename IndexType>
             for (std::size_t db = 0; db < nparts; ++db)
                 for (std::size_t r = 0; r < mem.f; ++r){
                     auto VmRow = Vm.stRow[db+1] - Vm.stRow[db];
-                    auto VmCol = (Vm.stCol[db+1] - Vm.stCol[db])/mem.f;
+                    auto VmCol = Vm.stCol[db+1] - Vm.stCol[db];
                     double* lVm = Vm.data[db].data + mem.q*VmRow * VmCol * r; 
                     const double* ldofs = dofs.data + r*dofs.nRow + Vm.stCol[db];
                     double* lopU = tmp_opU + r*dim*mem.q + Vm.stRow[db]*mem.q;
-                    fusive_A_mul_B(VmCol<= 8, mem.f, VmCol, lVm, mem.q*VmRow, const_cast<double*>(ldofs), 1, lopU);  
+                    fusive_A_mul_B(VmCol<= 8, 1, VmCol, lVm, mem.q*VmRow, const_cast<double*>(ldofs), 1, lopU);  
                 }
             if (mem.q > 1) {
+                for (std::size_t r = 0; r < mem.f; ++r)
                 for (std::size_t n = 0; n < mem.q; ++n)
                 for (std::size_t db = 0; db < nparts; ++db){
                     auto ldim = Vm.stRow[db+1] - Vm.stRow[db];
-                    double* from = tmp_opU + Vm.stRow[db]*mem.q + ldim*n;
-                    double* to = opU.data + dim*n + Vm.stRow[db];
+                    double* from = tmp_opU + r*dim*mem.q + Vm.stRow[db]*mem.q + ldim*n;
+                    double* to = opU.data + r*dim*mem.q + dim*n + Vm.stRow[db];
                     std::copy(from, from + ldim, to);
                 }
             }    
@@ -494,18 +495,19 @@ template<typename MatrTpXY0, typename Scalar, typename IndexType>
             for (std::size_t db = 0; db < nparts; ++db)
                 for (std::size_t r = 0; r < mem.f; ++r){
                     auto VmRow = U.stRow[db+1] - U.stRow[db];
-                    auto VmCol = (U.stCol[db+1] - U.stCol[db])/mem.f;
+                    auto VmCol = U.stCol[db+1] - U.stCol[db];
                     double* lVm = U.data[db].data + mem.q*VmRow * VmCol * r; 
                     const double* ldofs = dofs.data + r*dofs.nRow + U.stCol[db];
                     double* lopU = tmp_opU + r*dimA*mem.q + U.stRow[db]*mem.q;
-                    fusive_A_mul_B(VmCol<= 8, mem.f, VmCol, lVm, mem.q*VmRow, const_cast<double*>(ldofs), 1, lopU);  
+                    fusive_A_mul_B(VmCol<= 8, 1, VmCol, lVm, mem.q*VmRow, const_cast<double*>(ldofs), 1, lopU);  
                 }
             if (mem.q > 1) {
+                for (std::size_t r = 0; r < mem.f; ++r)
                 for (std::size_t n = 0; n < mem.q; ++n)
                 for (std::size_t db = 0; db < nparts; ++db){
                     auto ldim = U.stRow[db+1] - U.stRow[db];
-                    double* from = tmp_opU + U.stRow[db]*mem.q + ldim*n;
-                    double* to = opU.data + dimA*n + U.stRow[db];
+                    double* from = tmp_opU + r*dimA*mem.q + U.stRow[db]*mem.q + ldim*n;
+                    double* to = opU.data + r*dimA*mem.q + dimA*n + U.stRow[db];
                     std::copy(from, from + ldim, to);
                 }
             }     
@@ -540,18 +542,19 @@ template<typename MatrTpXY0, typename Scalar, typename IndexType>
             for (std::size_t db = 0; db < nparts; ++db)
                 for (std::size_t r = 0; r < mem.f; ++r){
                     auto VmRow = U.stRow[db+1] - U.stRow[db];
-                    auto VmCol = (U.stCol[db+1] - U.stCol[db])/mem.f;
+                    auto VmCol = U.stCol[db+1] - U.stCol[db];
                     double* lVm = U.data[db].data + mem.q*VmRow * VmCol * r; 
                     const double* ldofs = dofs.data + r*dofs.nRow + U.stCol[db];
                     double* lopU = tmp_opU + r*dimA*mem.q + U.stRow[db]*mem.q;
-                    fusive_A_mul_B(VmCol<= 8, mem.f, VmCol, lVm, mem.q*VmRow, const_cast<double*>(ldofs), 1, lopU);  
+                    fusive_A_mul_B(VmCol<= 8, 1, VmCol, lVm, mem.q*VmRow, const_cast<double*>(ldofs), 1, lopU);  
                 }
             if (mem.q > 1) {
+                for (std::size_t r = 0; r < mem.f; ++r)
                 for (std::size_t n = 0; n < mem.q; ++n)
                 for (std::size_t db = 0; db < nparts; ++db){
                     auto ldim = U.stRow[db+1] - U.stRow[db];
-                    double* from = tmp_opU + U.stRow[db]*mem.q + ldim*n;
-                    double* to = mem.V.data + dimA*n + U.stRow[db];
+                    double* from = tmp_opU + r*dimA*mem.q + U.stRow[db]*mem.q + ldim*n;
+                    double* to = mem.V.data + r*dimA*mem.q + dimA*n + U.stRow[db];
                     std::copy(from, from + ldim, to);
                 }
             }    
-- 
2.43.0


From a05c5899bfab82bf3d2b92c895c6e0fe5408dda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:01 +0000
Subject: [PATCH 02/48] fix: multi-element product clears the result of every
 fused element

fusive_A_mul_B accumulates into R but cleared only the block of the first element.
---
 anifem++/fem/operations/core.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/operations/core.inl b/anifem++/fem/operations/core.inl
index 6fe863a..87b79ae 100644
--- a/anifem++/fem/operations/core.inl
+++ b/anifem++/fem/operations/core.inl
@@ -70,7 +70,7 @@ namespace Ani{
 #ifdef WITH_EIGEN
         if (not_use_eigen){
 #endif
-            std::fill(R, R + ARow * BCol, 0);
+            std::fill(R, R + static_cast<std::size_t>(ARow) * BCol * fuse, Scalar(0));
             for (IndexType0 r = 0; r < fuse; ++r)
                 for (IndexType1 j = 0; j < nRow; ++j)
                     for (IndexType2 ib = 0; ib < ARow; ++ib) 
-- 
2.43.0


From 5eac30188f12c841d31c13d5e4f88e69cb4fa910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:01 +0000
Subject: [PATCH 03/48] fix: workspace requirement of fem3DapplyL covers the
 reordering buffer of composite spaces

With more than one point and more than one part, internalFem3DApply stages dim*q*f
values in extraR, which the announced requirement did not include.
---
 anifem++/fem/operations/eval.inl | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/anifem++/fem/operations/eval.inl b/anifem++/fem/operations/eval.inl
index f47d291..4468b12 100644
--- a/anifem++/fem/operations/eval.inl
+++ b/anifem++/fem/operations/eval.inl
@@ -5,7 +5,7 @@ namespace Ani{
         PlainMemory<ScalarType, IndexType> pm;
         std::size_t Usz = 0, extraR = 0, extraI = 0;
         Op::template memoryRequirements<ScalarType, IndexType>(f, q, Usz, extraR, extraI);
-        extraR = std::max(extraR, static_cast<std::size_t>(1*Op::Nfa::value*f));
+        extraR = std::max({extraR, static_cast<std::size_t>(1*Op::Nfa::value*f), static_cast<std::size_t>(Op::Dim::value*q*f)});
         IndexType DU = 0, DIFF = 0;
         IndexType XYG = 3*q*f, XYP = 3*4*f, PSI = 3*3*f, DET = f, MES = f, NRM = 0, XYL = 0, WG = 0;
         pm.dSize = Usz + DU + DIFF + XYG + XYP + PSI + DET + MES + NRM + extraR + XYL + WG;
@@ -55,10 +55,9 @@ namespace Ani{
 
     template<typename Op, typename ScalarType = double, typename IndexType = int>
     inline PlainMemory<ScalarType, IndexType> __internal_fem3DapplyL_setmem(AniMemory<ScalarType, IndexType>& mem, int q, int f, int nfa, int dim, PlainMemory<ScalarType, IndexType> plainMemory){
-        (void) dim;
         std::size_t Usz = 0, extraR = 0, extraI = 0;
         Op::template memoryRequirements<ScalarType, IndexType>(f, q, Usz, extraR, extraI);
-        extraR = std::max(extraR, static_cast<std::size_t>(1*nfa*f));
+        extraR = std::max({extraR, static_cast<std::size_t>(1*nfa*f), static_cast<std::size_t>(dim*q*f)});
         //IndexType DU_sz = 0, DIFF_sz = 0;
         IndexType XYG_sz = 3*q*f, XYP_sz = 3*4*f, PSI_sz = 3*3*f, DET_sz = f, MES_sz = f;// NRM_sz = 0, XYL_sz = 0, WG_sz = 0;
         ScalarType* p = plainMemory.ddata;
-- 
2.43.0


From e54ecce26d0840841dfffc67292219f795f56b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:01 +0000
Subject: [PATCH 04/48] fix: polynomial order of a complex space is the maximum
 of the orders of its parts

OrderCounter recursed into DimCounter, so the sum of trailing dimensions entered the maximum.
---
 anifem++/fem/operators.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/operators.inl b/anifem++/fem/operators.inl
index 2010796..0647c90 100644
--- a/anifem++/fem/operators.inl
+++ b/anifem++/fem/operators.inl
@@ -51,7 +51,7 @@ namespace Ani{
         struct OrderCounter<SUM, OP>: public std::integral_constant<int, SUM>{};
 
         template<int SUM, int OP, class T, class... Types>
-        struct OrderCounter<SUM, OP, T, Types...>: public std::integral_constant<int, std::max(Operator<OP, T>::Order::value, DimCounter<SUM, OP, Types...>::value)>{};
+        struct OrderCounter<SUM, OP, T, Types...>: public std::integral_constant<int, std::max(Operator<OP, T>::Order::value, OrderCounter<SUM, OP, Types...>::value)>{};
         
         template<int SUM, int OP>
         struct NfaCounter<SUM, OP>: public std::integral_constant<int, SUM>{};
-- 
2.43.0


From 7ed2b623f38bb102e04456c7e5d360d9b81d98a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:28 +0000
Subject: [PATCH 05/48] fix: reported order of DIV and CURL for vector and
 complex spaces with scalar parts

Scalar spaces have no DIV/CURL and report 0, which the composites forwarded although
their own DIV/CURL have the degree of the derivatives of the parts.
---
 anifem++/fem/fem_space.cpp | 4 ++--
 anifem++/fem/fem_space.h   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index 8945733..2f94480 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -899,8 +899,8 @@ namespace Ani{
         for(uint i = 0; i < m_spaces.size(); ++i) {
             m_dim += m_spaces[i]->dim();
             m_poly_order = std::max(m_poly_order, m_spaces[i]->order());
-            m_poly_order_DIV = std::max(m_poly_order_DIV, m_spaces[i]->orderDIV());
-            m_poly_order_CURL = std::max(m_poly_order_CURL, m_spaces[i]->orderCURL());
+            m_poly_order_DIV = std::max(m_poly_order_DIV, m_spaces[i]->dim() == 3 ? m_spaces[i]->orderDIV() : m_spaces[i]->orderGRAD());
+            m_poly_order_CURL = std::max(m_poly_order_CURL, m_spaces[i]->dim() == 3 ? m_spaces[i]->orderCURL() : m_spaces[i]->orderGRAD());
             for (int k = 0; k < 3; ++k)
                 m_poly_order_DUDX[k] = std::max(m_poly_order_DUDX[k], m_spaces[i]->orderDUDX(k));
         }
diff --git a/anifem++/fem/fem_space.h b/anifem++/fem/fem_space.h
index cc92f77..f741b26 100644
--- a/anifem++/fem/fem_space.h
+++ b/anifem++/fem/fem_space.h
@@ -294,10 +294,10 @@ namespace Ani{
         OpMemoryRequirements memGRAD(uint nquadpoints, uint fusion = 1) const override;
         BandDenseMatrixX<> applyDIV(AniMemoryX<> &mem, ArrayView<> &U) const override;
         OpMemoryRequirements memDIV(uint nquadpoints, uint fusion = 1) const override;
-        uint orderDIV() const override{ return m_base->orderDIV(); }
+        uint orderDIV() const override{ return m_base->dim() == 3 ? m_base->orderDIV() : orderDiff(); }
         BandDenseMatrixX<> applyCURL(AniMemoryX<> &mem, ArrayView<> &U) const override;
         OpMemoryRequirements memCURL(uint nquadpoints, uint fusion = 1) const override;
-        uint orderCURL() const override{ return m_base->orderCURL(); }
+        uint orderCURL() const override{ return m_base->dim() == 3 ? m_base->orderCURL() : orderDiff(); }
         BandDenseMatrixX<> applyDUDX(AniMemoryX<> &mem, ArrayView<> &U, uchar k) const override;
         OpMemoryRequirements memDUDX(uint nquadpoints, uint fusion, uchar k) const override;
         uint orderDUDX(uchar k) const override { return m_base->orderDUDX(k); }
-- 
2.43.0


From 3975b760c5c849f5b21b5fe5316d7d8d73ed82c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:08 +0000
Subject: [PATCH 06/48] fix: tell the per-selection tensor the number of the
 element it is evaluated on

---
 anifem++/fem/diff_tensor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/diff_tensor.h b/anifem++/fem/diff_tensor.h
index b01feb4..9dad606 100644
--- a/anifem++/fem/diff_tensor.h
+++ b/anifem++/fem/diff_tensor.h
@@ -679,7 +679,7 @@ namespace Ani{
                         for (IndexType n = 0; n < q; ++n){
                             auto locD = args.mem.DIFF.data + idim*jdim*(n + q*r);
                             std::array<Scalar, 3> x{args.mem.XYG.data[3*(n + r*q)], args.mem.XYG.data[3*(n + r*q)+1], args.mem.XYG.data[3*(n + r*q)+2]};
-                            Dfnc(x, locD, {jdim, idim}, args.user_data, 0);
+                            Dfnc(x, locD, {jdim, idim}, args.user_data, r);
                         }
 
                     for (IndexType r = 0; r < f; ++r) {
-- 
2.43.0


From 708f031ec10bcc22bb6a0a246aa57624833257a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:29 +0000
Subject: [PATCH 07/48] fix: vector spaces of different dimension are not equal

---
 anifem++/fem/fem_space.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index 2f94480..ea03308 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -405,7 +405,7 @@ namespace Ani{
     bool VectorFemSpace::operator==(const BaseFemSpace& other) const {
         if (gatherType() != other.gatherType()) return false;
         auto& o = *static_cast<const VectorFemSpace*>(&other);
-        return (o.m_base.get() == m_base.get()) || (o.m_base && m_base && *o.m_base == *m_base); 
+        return vec_dim() == o.vec_dim() && ((o.m_base.get() == m_base.get()) || (o.m_base && m_base && *o.m_base == *m_base)); 
     }
     void VectorFemSpace::evalBasisFunctions(const Expr& lmb /*4x1*/, const Expr& grad_lmb/*4x3*/, Expr* phi) const{
         uint lnfa = m_base->m_order.NumDofOnTet();
-- 
2.43.0


From e073d1585e4799915665981f6fc39f08212cd01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:02 +0000
Subject: [PATCH 08/48] fix: second derivative of a quotient whose denominator
 is first-order

operator/ added the 2 a/b^3 db x db term only when the denominator carried a
second derivative of its own, so x/y for variables (and value/variable) had a
wrong Hessian.
---
 anifem++/autodiff/autodiff.h   | 11 +++++++++--
 anifem++/autodiff/autodiff.inl | 14 ++++++--------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/anifem++/autodiff/autodiff.h b/anifem++/autodiff/autodiff.h
index 2e128d1..96d80a8 100644
--- a/anifem++/autodiff/autodiff.h
+++ b/anifem++/autodiff/autodiff.h
@@ -153,6 +153,13 @@ using MulVal = ADVal< ADState<
                     (EX1::State::NotTrivialDeriv && EX2::State::NotTrivialDeriv)>,
                 typename EX1::Storage
                 >;  
+template<typename EX1, typename EX2, typename std::enable_if<std::is_same<typename EX1::Storage, typename EX2::Storage>::value>::type* = nullptr>
+using DivVal = ADVal< ADState<
+                    EX1::State::NotTrivialValue || EX2::State::NotTrivialValue, 
+                    EX1::State::NotTrivialDeriv || EX2::State::NotTrivialDeriv,
+                    EX1::State::NotTrivialSecondDeriv || EX2::State::NotTrivialDeriv>,
+                typename EX1::Storage
+                >;
 template<typename EX1>
 using CopVal = ADVal< typename EX1::State, typename EX1::Storage >;
 template<typename EX1>
@@ -176,7 +183,7 @@ UnionVal<EX1, EX2> operator-(EX1 a, EX2 b);
 template<typename EX1, typename EX2, typename ADCheck2<EX1, EX2>::type* = nullptr>
 MulVal<EX1, EX2> operator*(EX1 a, EX2 b);
 template<typename EX1, typename EX2, typename ADCheck2<EX1, EX2>::type* = nullptr>
-MulVal<EX1, EX2> operator/(EX1 a, EX2 b);
+DivVal<EX1, EX2> operator/(EX1 a, EX2 b);
 
 template<typename EX1>
 using _EXParam = Param<typename EX1::Storage>;
@@ -195,7 +202,7 @@ CopVal<EX1> operator*(typename EX1::Storage::ValueType b, EX1 a) { return _EXPar
 template<typename EX1, typename ADCheck1<EX1>::type* = nullptr>
 CopVal<EX1> operator/(EX1 a, typename EX1::Storage::ValueType b) { return a / _EXParam<EX1>(b); }
 template<typename EX1, typename ADCheck1<EX1>::type* = nullptr>
-CopVal<EX1> operator/(typename EX1::Storage::ValueType b, EX1 a) { return _EXParam<EX1>(b) / a; }
+FuncVal<EX1> operator/(typename EX1::Storage::ValueType b, EX1 a) { return _EXParam<EX1>(b) / a; }
 
 template<typename EX1, typename ADCheck1<EX1>::type* = nullptr> 
 FuncVal<EX1> pow(EX1 a, typename EX1::Storage::ValueType q);
diff --git a/anifem++/autodiff/autodiff.inl b/anifem++/autodiff/autodiff.inl
index 8219412..330e9f0 100644
--- a/anifem++/autodiff/autodiff.inl
+++ b/anifem++/autodiff/autodiff.inl
@@ -136,7 +136,7 @@ MulVal<EX1, EX2> operator*(EX1 a, EX2 b){
     return {dif, v, m, r};
 }
 template<typename EX1, typename EX2, typename ADCheck2<EX1, EX2>::type* Dummy>
-MulVal<EX1, EX2> operator/(EX1 a, EX2 b){
+DivVal<EX1, EX2> operator/(EX1 a, EX2 b){
     // using VT = typename EX1::Storage::ValueType; 
     using GT = typename EX1::Storage::GradientType; using HT = typename EX1::Storage::HessianType;
     auto av = a(), bv = b();
@@ -154,16 +154,14 @@ MulVal<EX1, EX2> operator/(EX1 a, EX2 b){
         }
     }
     HT r;
-    if ((EX1::State::NotTrivialSecondDeriv || EX2::State::NotTrivialSecondDeriv || 
-        (EX1::State::NotTrivialDeriv && EX2::State::NotTrivialValue)) 
-        && dif >= 2){
-        CONSTIF (EX1::State::NotTrivialDeriv && EX2::State::NotTrivialValue)
+    if ((EX1::State::NotTrivialSecondDeriv || EX2::State::NotTrivialDeriv) && dif >= 2){
+        CONSTIF (EX1::State::NotTrivialDeriv && EX2::State::NotTrivialDeriv)
             r -= (1/(bv*bv))*HT::TensorSymMul2(am, bm);
         CONSTIF (EX1::State::NotTrivialSecondDeriv ) r += a.DD() / bv;
-        CONSTIF (EX2::State::NotTrivialSecondDeriv ) {
+        CONSTIF (EX2::State::NotTrivialDeriv ) {
             auto c = av / (bv * bv);
-            auto rb = b.DD();
-            r += c * ( (2./bv) * HT::TensorSquare(bm) - rb );
+            r += (2 * c / bv) * HT::TensorSquare(bm);
+            CONSTIF (EX2::State::NotTrivialSecondDeriv ) r -= c * b.DD();
         }
     }
     return {dif, v, m, r};
-- 
2.43.0


From 71f70f3cb390a79776fc94229c2b12de396eb091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:02 +0000
Subject: [PATCH 09/48] fix: index maps of BiSymTensor4Rank for dimensions
 other than 3

continuous_index did not compile for a dependent N and index returned the third
index in place of the fourth.
---
 anifem++/autodiff/physical_tensors.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/anifem++/autodiff/physical_tensors.h b/anifem++/autodiff/physical_tensors.h
index 0353d80..bfaa5f3 100644
--- a/anifem++/autodiff/physical_tensors.h
+++ b/anifem++/autodiff/physical_tensors.h
@@ -427,12 +427,12 @@ struct BiSymTensor4Rank{
     static Index index(std::size_t continuous_index) { 
         auto q = SymMtx<N*(N+1)/2, FT>::index(continuous_index); 
         auto ti = SymMtx<N, FT>::index(q.i), tj = SymMtx<N, FT>::index(q.j);
-        return Index(ti.i, ti.j, tj.i, tj.i); 
+        return Index(ti.i, ti.j, tj.i, tj.j); 
     }
     static std::size_t continuous_index(Index id){ 
-        auto I = SymMtx<N, FT>::continuous_index(SymMtx<N, FT>::Index(id.i, id.j)), 
-             J = SymMtx<N, FT>::continuous_index(SymMtx<N, FT>::Index(id.k, id.l));
-        return SymMtx<N*(N+1)/2, FT>::continuous_index(SymMtx<N*(N+1)/2, FT>::Index(I, J));
+        auto I = SymMtx<N, FT>::continuous_index(typename SymMtx<N, FT>::Index(id.i, id.j)), 
+             J = SymMtx<N, FT>::continuous_index(typename SymMtx<N, FT>::Index(id.k, id.l));
+        return SymMtx<N*(N+1)/2, FT>::continuous_index(typename SymMtx<N*(N+1)/2, FT>::Index(I, J));
     }
 
     std::array<FT, N*(N+1)/2 * (N*(N+1)/2 + 1) / 2> m_dat = {0};
-- 
2.43.0


From b2576fcccf040faf6f83403e8b503616797ab4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:08 +0000
Subject: [PATCH 10/48] fix: BiSymTensor4Rank<2> entry multiplicity does not
 compile

index_duplication used an IndexMap that the 3x3 specialisation of SymMtx does
not have, so SquareFrobNorm and Dot were unusable in two dimensions.
---
 anifem++/autodiff/physical_tensors.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/anifem++/autodiff/physical_tensors.h b/anifem++/autodiff/physical_tensors.h
index bfaa5f3..bfaa9de 100644
--- a/anifem++/autodiff/physical_tensors.h
+++ b/anifem++/autodiff/physical_tensors.h
@@ -443,10 +443,8 @@ struct BiSymTensor4Rank{
     constexpr std::size_t rank() const { return 4U; }
     constexpr std::size_t continuous_size() const { return N*(N+1)/2 * (N*(N+1)/2 + 1) / 2; }
     constexpr std::size_t index_duplication(std::size_t continuous_index) const { 
-        constexpr typename SymMtx<N*(N+1)/2, FT>::IndexMap a{}; 
-        constexpr typename SymMtx<N, FT>::IndexMap b{};
-        auto q = typename SymMtx<N*(N+1)/2, FT>::Index{a.imap[continuous_index], a.jmap[continuous_index]};
-        return (a.imap[continuous_index] != a.jmap[continuous_index] ? 2 : 1) * (b.imap[q.i] != b.jmap[q.i] ? 2 : 1) * (b.imap[q.j] != b.jmap[q.j] ? 2 : 1);
+        auto q = index(continuous_index);
+        return ((q.i != q.k || q.j != q.l) ? 2 : 1) * (q.i != q.j ? 2 : 1) * (q.k != q.l ? 2 : 1);
     }
 
     template <typename DataType = FT>
-- 
2.43.0


From 55d1b03ff900d168e2603d841a62c4074a996778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:46 +0000
Subject: [PATCH 11/48] fix: component of a vector dof map locus is found by
 dofs per element, not per tetrahedron

---
 anifem++/fem/tetdofmap.cpp | 4 ++--
 anifem++/fem/tetdofmap.inl | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/anifem++/fem/tetdofmap.cpp b/anifem++/fem/tetdofmap.cpp
index b8d1df5..101efa0 100644
--- a/anifem++/fem/tetdofmap.cpp
+++ b/anifem++/fem/tetdofmap.cpp
@@ -440,13 +440,13 @@ DofT::LocalOrder DofT::VectorDofMap::LocalOrderOnTet(TetOrder dof_id) const  {
 }
 uint DofT::VectorDofMap::TetDofID(LocGeomOrder dof_id) const{ 
     assert(isValidIndex(dof_id) && "Wrong dof number");
-    int nOdf = base->NumDofOnTet(), lOdf = base->NumDofOnTet(dof_id.etype);
+    int nOdf = base->NumDofOnTet(), lOdf = base->NumDof(dof_id.etype);
     int component = dof_id.leid / lOdf;
     return component * nOdf + base->TetDofID(LocGeomOrder(dof_id.etype, dof_id.nelem, dof_id.leid % lOdf));
 }
 std::pair<uint, DofT::LocSymOrder> DofT::VectorDofMap::TetDofIDExt(LocGeomOrder dof_id) const{
     assert(isValidIndex(dof_id) && "Wrong dof number");
-    int nOdf = base->NumDofOnTet(), lOdf = base->NumDofOnTet(dof_id.etype);
+    int nOdf = base->NumDofOnTet(), lOdf = base->NumDof(dof_id.etype);
     int component = dof_id.leid / lOdf;
     auto id = base->TetDofIDExt(LocGeomOrder(dof_id.etype, dof_id.nelem, dof_id.leid % lOdf));
     return {component * nOdf + id.first, id.second};
diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 6fd22d5..8d91289 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -402,14 +402,14 @@ namespace FemComDetails{
     template<typename DofMapT>
     uint VectorDofMapCImpl<true, DofMapT>::TetDofID(LocGeomOrder dof_id) const{
         assert(isValidIndex(dof_id) && "Wrong dof number");
-        uint nOdf = m_base.NumDofOnTet(), lOdf = m_base.NumDofOnTet(dof_id.etype);
+        uint nOdf = m_base.NumDofOnTet(), lOdf = m_base.NumDof(dof_id.etype);
         uint component = dof_id.leid / lOdf;
         return component * nOdf + m_base.TetDofID(LocGeomOrder(dof_id.etype, dof_id.nelem, dof_id.leid % lOdf));
     }
     template<typename DofMapT>
     std::pair<uint, LocSymOrder> VectorDofMapCImpl<true, DofMapT>::TetDofIDExt(LocGeomOrder dof_id) const {
         assert(isValidIndex(dof_id) && "Wrong dof number");
-        uint nOdf = m_base.NumDofOnTet(), lOdf = m_base.NumDofOnTet(dof_id.etype);
+        uint nOdf = m_base.NumDofOnTet(), lOdf = m_base.NumDof(dof_id.etype);
         uint component = dof_id.leid / lOdf;
         auto id = m_base.TetDofIDExt(LocGeomOrder(dof_id.etype, dof_id.nelem, dof_id.leid % lOdf));
         return {component * nOdf + id.first, id.second};
-- 
2.43.0


From d35daa100a499f83a9834d37ca02d760bec006c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:29 +0000
Subject: [PATCH 12/48] fix: iteration over chosen tetrahedron parts skips dofs
 of composite maps

The sparsity iteration of ComplexDofMap(C) tried only one following component,
re-used the previous element's component offsets and, by element, required the
next component to own dofs of the same geometric type; VectorDofMap(C) of such a
map began with the first dof of the chain instead of the first one on the parts.
---
 anifem++/fem/tetdofmap.cpp | 86 +++++++++++++++++--------------------
 anifem++/fem/tetdofmap.h   |  1 +
 anifem++/fem/tetdofmap.inl | 87 ++++++++++++++++++--------------------
 3 files changed, 81 insertions(+), 93 deletions(-)

diff --git a/anifem++/fem/tetdofmap.cpp b/anifem++/fem/tetdofmap.cpp
index 101efa0..d6f8c2a 100644
--- a/anifem++/fem/tetdofmap.cpp
+++ b/anifem++/fem/tetdofmap.cpp
@@ -470,6 +470,12 @@ std::shared_ptr<DofT::BaseDofMap> DofT::VectorDofMap::GetSubDofMap(const int* ex
     } else 
         return nullptr;
 }
+void DofT::VectorDofMap::BeginByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering) const{
+    if (m_dim > 0) 
+        base->BeginByGeomSparsity(sp, lo, preferGeomOrdering);
+    else 
+        EndByGeomSparsity(lo);
+}
 void DofT::VectorDofMap::IncrementByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering) const{
     assert(isValidIndex(lo) && "Wrong index");
     int nOdf = base->NumDofOnTet(), lOdf = base->NumDof(lo.etype);
@@ -513,23 +519,9 @@ void DofT::VectorDofMap::IncrementByGeomSparsity(const TetGeomSparsity& sp, Loca
         } else {
             ++dim;
             if (dim != static_cast<uint>(m_dim)){
-                LocGeomOrder lgo(lo.etype, lo.nelem, 0);
-                if (lo.etype == EDGE_ORIENT){
-                    auto eodf = base->NumDof(EDGE_UNORIENT);
-                    if (eodf > 0){
-                        lgo.etype = EDGE_UNORIENT;
-                        lOdf = eodf;
-                    }
-                }
-                else if (lo.etype == FACE_ORIENT){
-                    auto fodf = base->NumDof(FACE_UNORIENT);
-                    if (fodf > 0){
-                        lgo.etype = FACE_UNORIENT;
-                        lOdf = fodf;
-                    }
-                }
-                auto id = base->TetDofIDExt(lgo);
-                lo = LocalOrder(id.first + dim*nOdf, lgo.etype, lgo.nelem, lgo.leid + dim*lOdf, id.second.stype, id.second.lsid);
+                base->BeginByGeomSparsity(ss, ll, true);
+                lOdf = base->NumDof(ll.etype);
+                lo = LocalOrder(ll.gid + dim*nOdf, ll.etype, ll.nelem, ll.leid + dim*lOdf, ll.stype, ll.lsid);
                 return;
             } else {
                 dim = 0;
@@ -706,15 +698,17 @@ void DofT::ComplexDofMap::BeginByGeomSparsity(const TetGeomSparsity& sp, LocalOr
         EndByGeomSparsity(lo);
         return;
     } else {
-        for (int num = 0; num < NGEOM_TYPES; ++num){
-            auto etype = NumToGeomType(num);
-            auto gdim = GeomTypeDim(etype);
-            auto pos = sp.beginPos(gdim);
-            if (!pos.isValid()) continue;
-            for (uint dim = 0; dim < m_spaces.size(); ++dim) if (m_spaces[dim]->DefinedOn(etype)){
-                m_spaces[dim]->BeginByGeomSparsity(sp, lo, preferGeomOrdering);
-                lo.gid += m_spaceNumDofsTet[dim], lo.leid += m_spaceNumDof[num][dim];
-                return;
+        for (auto pos = sp.beginPos(); pos.isValid(); pos = sp.nextPos(pos)){
+            TetGeomSparsity ss;
+            ss.set(pos.elem_dim, pos.elem_num);
+            for (uint dim = 0; dim < m_spaces.size(); ++dim){
+                LocalOrder ll, lend;
+                m_spaces[dim]->EndByGeomSparsity(lend);
+                m_spaces[dim]->BeginByGeomSparsity(ss, ll, preferGeomOrdering);
+                if (ll != lend){
+                    lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[GeomTypeToNum(ll.etype)][dim], ll.stype, ll.lsid);
+                    return;
+                }
             }
         }
         EndByGeomSparsity(lo);
@@ -735,12 +729,11 @@ void DofT::ComplexDofMap::IncrementByGeomSparsity(const TetGeomSparsity& sp, Loc
             lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[num][dim], ll.stype, ll.lsid);
             return;
         } else {
-            ++dim;
-            if (dim != m_spaces.size()){
+            for (++dim; dim < m_spaces.size(); ++dim){
                 m_spaces[dim]->EndByGeomSparsity(lend);
                 m_spaces[dim]->BeginByGeomSparsity(sp, ll, preferGeomOrdering);
                 if (ll != lend){
-                    if (ll.etype != lo.etype) num = GeomTypeToNum(ll.etype);
+                    num = GeomTypeToNum(ll.etype);
                     lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[num][dim], ll.stype, ll.lsid);
                     return;
                 }
@@ -760,26 +753,25 @@ void DofT::ComplexDofMap::IncrementByGeomSparsity(const TetGeomSparsity& sp, Loc
             lo = LocalOrder(lgo.gid + m_spaceNumDofsTet[dim], lgo.etype, lgo.nelem, lgo.leid + m_spaceNumDof[num][dim], lgo.stype, lgo.lsid);
             return;
         } else {
-            do { ++dim; } while( dim < m_spaces.size() && !m_spaces[dim]->DefinedOn(ll.etype));
-            if (dim != m_spaces.size()){
-                ll.leid = 0;
-                LocGeomOrder lgo(ll.etype, ll.nelem, ll.leid);
-                num = GeomTypeToNum(ll.etype);
-                auto id = m_spaces[dim]->TetDofIDExt(lgo);
-                lo = LocalOrder(id.first + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[num][dim], id.second.stype, id.second.lsid);
-                return;
-            } else {
-                auto next_pos = sp.nextPos(TetGeomSparsity::Pos(gdim, lo.nelem));
-                if (!next_pos.isValid()) { 
-                    EndByGeomSparsity(lo); 
-                    return; 
+            for (++dim; dim < m_spaces.size(); ++dim){
+                m_spaces[dim]->EndByGeomSparsity(lend);
+                m_spaces[dim]->BeginByGeomSparsity(ss, lgo, preferGeomOrdering);
+                if (lgo != lend){
+                    num = GeomTypeToNum(lgo.etype);
+                    lo = LocalOrder(lgo.gid + m_spaceNumDofsTet[dim], lgo.etype, lgo.nelem, lgo.leid + m_spaceNumDof[num][dim], lgo.stype, lgo.lsid);
+                    return;
                 }
-                ss = sp;
-                for (int i = 0; i < next_pos.elem_dim; ++i) ss.unset(i);
-                for (int i = 0; i < next_pos.elem_num; ++i) ss.unset(next_pos.elem_dim, i);
-                BeginByGeomSparsity(ss, lo, preferGeomOrdering);
-                return;
             }
+            auto next_pos = sp.nextPos(TetGeomSparsity::Pos(gdim, lo.nelem));
+            if (!next_pos.isValid()) { 
+                EndByGeomSparsity(lo); 
+                return; 
+            }
+            ss = sp;
+            for (int i = 0; i < next_pos.elem_dim; ++i) ss.unset(i);
+            for (int i = 0; i < next_pos.elem_num; ++i) ss.unset(next_pos.elem_dim, i);
+            BeginByGeomSparsity(ss, lo, preferGeomOrdering);
+            return;
         }
     }
 }
diff --git a/anifem++/fem/tetdofmap.h b/anifem++/fem/tetdofmap.h
index 1e91d0c..d8784b5 100644
--- a/anifem++/fem/tetdofmap.h
+++ b/anifem++/fem/tetdofmap.h
@@ -644,6 +644,7 @@ namespace Ani{
             bool operator==(const BaseDofMap& other) const override;
             std::shared_ptr<BaseDofMap> Copy() const override { return std::make_shared<VectorDofMap>(*this); }
             
+            void BeginByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering = false) const override;
             void IncrementByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering = false) const override;
             ComponentTetOrder ComponentID(TetOrder dof_id) const { return {dof_id, dof_id % base->NumDofOnTet(), dof_id / base->NumDofOnTet()}; }
             ComponentElemOrder ComponentID(ElemOrder dof_id) const { auto nd = base->NumDof(dof_id.etype); return {dof_id.etype, dof_id.gid, dof_id.gid % nd, dof_id.gid / nd};  }
diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 8d91289..32ec30f 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -385,6 +385,7 @@ namespace FemComDetails{
         void GetNestedComponent(const int* ext_dims, int ndims, NestedDofMapBase& view) const override;
         std::shared_ptr<BaseDofMap> GetSubDofMap(const int* ext_dims, int ndims) override;
         bool operator==(const BaseDofMap& other) const override;
+        void BeginByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering = false) const override;
         void IncrementByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering = false) const override;
 
         std::shared_ptr<BaseDofMap> Copy() const override { return std::make_shared<VectorDofMapCImpl<true, DofMapT>>(*this); }
@@ -446,6 +447,13 @@ namespace FemComDetails{
         return m_base == a.m_base;
     }
 
+    template<typename DofMapT>
+    void VectorDofMapCImpl<true, DofMapT>::BeginByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering) const{
+        if (m_dim > 0) 
+            m_base.BeginByGeomSparsity(sp, lo, preferGeomOrdering);
+        else 
+            EndByGeomSparsity(lo);
+    }
     template<typename DofMapT>
     void VectorDofMapCImpl<true, DofMapT>::IncrementByGeomSparsity(const TetGeomSparsity& sp, LocalOrder& lo, bool preferGeomOrdering) const{
         assert(isValidIndex(lo) && "Wrong index");
@@ -490,23 +498,9 @@ namespace FemComDetails{
             } else {
                 ++dim;
                 if (dim != static_cast<uint>(m_dim)){
-                    LocGeomOrder lgo(lo.etype, lo.nelem, 0);
-                    if (lo.etype == EDGE_ORIENT){
-                        auto eodf = m_base.NumDof(EDGE_UNORIENT);
-                        if (eodf > 0){
-                            lgo.etype = EDGE_UNORIENT;
-                            lOdf = eodf;
-                        }
-                    }
-                    else if (lo.etype == FACE_ORIENT){
-                        auto fodf = m_base.NumDof(FACE_UNORIENT);
-                        if (fodf > 0){
-                            lgo.etype = FACE_UNORIENT;
-                            lOdf = fodf;
-                        }
-                    }
-                    auto id = m_base.TetDofIDExt(lgo);
-                    lo = LocalOrder(id.first + dim*nOdf, lgo.etype, lgo.nelem, lgo.leid + dim*lOdf, id.second.stype, id.second.lsid);
+                    m_base.BeginByGeomSparsity(ss, ll, true);
+                    lOdf = m_base.NumDof(ll.etype);
+                    lo = LocalOrder(ll.gid + dim*nOdf, ll.etype, ll.nelem, ll.leid + dim*lOdf, ll.stype, ll.lsid);
                     return;
                 } else {
                     dim = 0;
@@ -748,15 +742,17 @@ namespace FemComDetails{
             EndByGeomSparsity(lo);
             return;
         } else {
-            for (uint num = 0; num < NGEOM_TYPES; ++num){
-                auto etype = NumToGeomType(num);
-                auto gdim = GeomTypeDim(etype);
-                auto pos = sp.beginPos(gdim);
-                if (!pos.isValid()) continue;
-                for (uint dim = 0; dim < s.size(); ++dim) if (s[dim]->DefinedOn(etype)){
-                    s[dim]->BeginByGeomSparsity(sp, lo, preferGeomOrdering);
-                    lo.gid += m_spaceNumDofsTet[dim], lo.leid += m_spaceNumDof[num][dim];
-                    return;
+            for (auto pos = sp.beginPos(); pos.isValid(); pos = sp.nextPos(pos)){
+                TetGeomSparsity ss;
+                ss.set(pos.elem_dim, pos.elem_num);
+                for (uint dim = 0; dim < s.size(); ++dim){
+                    LocalOrder ll, lend;
+                    s[dim]->EndByGeomSparsity(lend);
+                    s[dim]->BeginByGeomSparsity(ss, ll, preferGeomOrdering);
+                    if (ll != lend){
+                        lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[GeomTypeToNum(ll.etype)][dim], ll.stype, ll.lsid);
+                        return;
+                    }
                 }
             }
             EndByGeomSparsity(lo);
@@ -779,12 +775,11 @@ namespace FemComDetails{
                 lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[num][dim], ll.stype, ll.lsid);
                 return;
             } else {
-                ++dim;
-                if (dim != s.size()){
+                for (++dim; dim < s.size(); ++dim){
                     s[dim]->EndByGeomSparsity(lend);
                     s[dim]->BeginByGeomSparsity(sp, ll, preferGeomOrdering);
                     if (ll != lend){
-                        if (ll.etype != lo.etype) num = GeomTypeToNum(ll.etype);
+                        num = GeomTypeToNum(ll.etype);
                         lo = LocalOrder(ll.gid + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[num][dim], ll.stype, ll.lsid);
                         return;
                     }
@@ -804,25 +799,25 @@ namespace FemComDetails{
                 lo = LocalOrder(lgo.gid + m_spaceNumDofsTet[dim], lgo.etype, lgo.nelem, lgo.leid + m_spaceNumDof[num][dim], lgo.stype, lgo.lsid);
                 return;
             } else {
-                do { ++dim; } while( dim < s.size() && !s[dim]->DefinedOn(ll.etype));
-                if (dim != s.size()){
-                    ll.leid = 0;
-                    LocGeomOrder lgo(ll.etype, ll.nelem, ll.leid);
-                    num = GeomTypeToNum(ll.etype);
-                    lo = LocalOrder(s[dim]->TetDofID(lgo) + m_spaceNumDofsTet[dim], ll.etype, ll.nelem, ll.leid + m_spaceNumDof[num][dim], ll.stype, ll.lsid);
-                    return;
-                } else {
-                    auto next_pos = sp.nextPos(TetGeomSparsity::Pos(gdim, lo.nelem));
-                    if (!next_pos.isValid()) { 
-                        EndByGeomSparsity(lo); 
-                        return; 
+                for (++dim; dim < s.size(); ++dim){
+                    s[dim]->EndByGeomSparsity(lend);
+                    s[dim]->BeginByGeomSparsity(ss, lgo, preferGeomOrdering);
+                    if (lgo != lend){
+                        num = GeomTypeToNum(lgo.etype);
+                        lo = LocalOrder(lgo.gid + m_spaceNumDofsTet[dim], lgo.etype, lgo.nelem, lgo.leid + m_spaceNumDof[num][dim], lgo.stype, lgo.lsid);
+                        return;
                     }
-                    ss = sp;
-                    for (uint i = 0; i < next_pos.elem_dim; ++i) ss.unset(i);
-                    for (uint i = 0; i < next_pos.elem_num; ++i) ss.unset(next_pos.elem_dim, i);
-                    BeginByGeomSparsity(ss, lo, preferGeomOrdering);
-                    return;
                 }
+                auto next_pos = sp.nextPos(TetGeomSparsity::Pos(gdim, lo.nelem));
+                if (!next_pos.isValid()) { 
+                    EndByGeomSparsity(lo); 
+                    return; 
+                }
+                ss = sp;
+                for (uint i = 0; i < next_pos.elem_dim; ++i) ss.unset(i);
+                for (uint i = 0; i < next_pos.elem_num; ++i) ss.unset(next_pos.elem_dim, i);
+                BeginByGeomSparsity(ss, lo, preferGeomOrdering);
+                return;
             }
         }
     }
-- 
2.43.0


From 5a847c75ce59af458e644772dc9029a4e68e3ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:33 +0000
Subject: [PATCH 13/48] fix: complement of a set of tetrahedron parts contains
 parts that do not exist

---
 anifem++/fem/tetdofmap.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 32ec30f..6bc154d 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -25,7 +25,7 @@ inline TetGeomSparsity operator^(TetGeomSparsity a, TetGeomSparsity b){
 inline TetGeomSparsity operator~(TetGeomSparsity a){ 
     TetGeomSparsity res; 
     for (uchar d = 0; d < 4; ++d) 
-        res.elems[d] = ~a.elems[d];
+        res.set(d).elems[d] &= ~a.elems[d];
     return res;
 }
 
-- 
2.43.0


From 01cb3c63f4c3b9c63fd418e22543b0d4c93a4e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:19 +0000
Subject: [PATCH 14/48] fix: image of a face dof under a node permutation is
 counted from the nodes of its face

---
 anifem++/fem/tetdofmap.inl | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 6bc154d..dcd9739 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -226,8 +226,13 @@ inline LocalOrder remap_local_order(const LocalOrder& lo, const uchar sigma[4]){
         uchar a = face_vertex(lo.nelem, 0), b = face_vertex(lo.nelem, 1), c = face_vertex(lo.nelem, 2);
         r.nelem = find_face_elem(sigma[a], sigma[b], sigma[c]);
     }
-    if (r.stype != uchar(-1))
-        r.lsid = DofSymmetries::index_on_reorderd_elem(lo.etype, lo.nelem, lo.stype, lo.lsid, sigma);
+    if (r.stype != uchar(-1)){
+        uchar pos[4] = {sigma[0], sigma[1], sigma[2], sigma[3]};
+        // Nodes of a face are counted in the order nelem, nelem+1, nelem+2 (mod 4).
+        if (dim == 2)
+            for (auto& p: pos) p = static_cast<uchar>((p + 4 - r.nelem) % 4);
+        r.lsid = DofSymmetries::index_on_reorderd_elem(lo.etype, lo.nelem, lo.stype, lo.lsid, pos);
+    }
     r.gid = uint(-1);
     r.leid = uint(-1);
     return r;
-- 
2.43.0


From a67d602cef6f598b7d3f39c598359c6ca47a5eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:19 +0000
Subject: [PATCH 15/48] fix: dof permutation of maps with several dofs of one
 symmetry type on an element

---
 anifem++/fem/tetdofmap.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index dcd9739..37daa1e 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -241,7 +241,7 @@ inline int find_tet_dof(const BaseDofMap& map, const LocalOrder& target){
     const int n = static_cast<int>(map.NumDofOnTet());
     for (int j = 0; j < n; ++j){
         auto lo = map.LocalOrderOnTet(TetOrder(j));
-        if (same_geom_sym(lo, target)) return j;
+        if (same_geom_sym(lo, target) && (target.leid == uint(-1) || lo.leid == target.leid)) return j;
     }
     return -1;
 }
@@ -250,6 +250,8 @@ inline void build_dof_permutation(const BaseDofMap& map, const uchar sigma[4], d
     for (int j = 0; j < n; ++j){
         auto lo = map.LocalOrderOnTet(TetOrder(j));
         auto lo_new = remap_local_order(lo, sigma);
+        // D.o.f.s of one symmetry group follow each other on the element.
+        lo_new.leid = (lo.stype != uchar(-1)) ? lo.leid - lo.lsid + lo_new.lsid : lo.leid;
         int new_j = find_tet_dof(map, lo_new);
         if (new_j < 0) continue;
         double s = 1.0;
-- 
2.43.0


From 42e993d647c3f8305bc6e15d1f52ec8ecbbc0dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:20 +0000
Subject: [PATCH 16/48] fix: stabilizer of the tetrahedron lacks the
 permutations that move its last node

---
 anifem++/fem/tetdofmap.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/anifem++/fem/tetdofmap.inl b/anifem++/fem/tetdofmap.inl
index 37daa1e..950cd9e 100644
--- a/anifem++/fem/tetdofmap.inl
+++ b/anifem++/fem/tetdofmap.inl
@@ -333,6 +333,7 @@ inline StabilizerData stabilizer_data(const LocalOrder& repr){
     } else {
         sd.generators.push_back({1, 0, 2, 3});
         sd.generators.push_back({0, 2, 1, 3});
+        sd.generators.push_back({0, 1, 3, 2});
     }
     return sd;
 }
-- 
2.43.0


From 1fe19efda411fd52369bde7da3607881d6dfe518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:26 +0000
Subject: [PATCH 17/48] fix: keep all prescribed values in the right-hand side
 of applyVectorDir

setVectorDirRhs stored bc[k] while it still subtracted the columns of the
following conditions from every row, so with two or more conditions per
vector the earlier prescribed values were overwritten.
---
 anifem++/fem/operations/dc_on_dof.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anifem++/fem/operations/dc_on_dof.inl b/anifem++/fem/operations/dc_on_dof.inl
index 40a15d3..43108ae 100644
--- a/anifem++/fem/operations/dc_on_dof.inl
+++ b/anifem++/fem/operations/dc_on_dof.inl
@@ -107,8 +107,9 @@ namespace Ani{
                     for (std::size_t j = 0; j < A.nRow; ++j)
                         F(j, 0) -= A(j, did)*Vorth(id[k], m)*bc[k];
                 }
-                F(dof_id[id[k]], 0) = bc[k]; 
             }
+            for (uint k = 0; k < ndc; ++k)
+                F(dof_id[id[k]], 0) = bc[k]; 
         }
         template<typename Scalar, typename RandomIt>
         inline void setVectorDirResidual(DenseMatrix <Scalar>& F, 
-- 
2.43.0


From 2a56db6f5f13e2716941ffc1c860f04158ec1ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:26 +0000
Subject: [PATCH 18/48] fix: address the only column of the work vector in
 setVectorDirMtx

C has one column, C(j, 1) lies A.nRow numbers behind it, outside of the
documented work memory when the vector has one component.
---
 anifem++/fem/operations/dc_on_dof.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/operations/dc_on_dof.inl b/anifem++/fem/operations/dc_on_dof.inl
index 43108ae..ade2e23 100644
--- a/anifem++/fem/operations/dc_on_dof.inl
+++ b/anifem++/fem/operations/dc_on_dof.inl
@@ -82,11 +82,11 @@ namespace Ani{
                     Scalar s = 0;
                     for (uint p = 0; p < dim; ++p)
                         s += A(j, dof_id[p])*Vorth(id[k], p);
-                    C(j, 1) = s;
+                    C(j, 0) = s;
                 }
                 for (uint l = 0; l < dim; ++l)
                     for (std::size_t j = 0; j < A.nRow; ++j)
-                        A(j, dof_id[l]) -= C(j, 1)*Vorth(id[k], l);
+                        A(j, dof_id[l]) -= C(j, 0)*Vorth(id[k], l);
                 for (std::size_t j = 0; j < A.nCol; ++j)
                     A(dof_id[id[k]], j) = 0;
                 for (uint m = 0; m < dim; ++m)
-- 
2.43.0


From 365d71fe01690782918bf08ce8f776209d0e7a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:39 +0000
Subject: [PATCH 19/48] fix: Tetra::normal_direction could not be instantiated:
 only the first of four pointers was declared as one

---
 anifem++/fem/geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 3a68700..582500a 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -174,7 +174,7 @@ namespace Ani{
         std::array<NCScalar, 3> normal_direction(unsigned char iopposite_node) const {
             ScalarType* X[4] = {BaseT::XY0.data, BaseT::XY1.data, BaseT::XY2.data, BaseT::XY3.data};
             auto i = iopposite_node;
-            ScalarType* p0 = X[(i+1+0)%4], p1 = X[(i+1+1)%4], p2 = X[(i+1+2)%4], p3 = X[i%4];
+            ScalarType *p0 = X[(i+1+0)%4], *p1 = X[(i+1+1)%4], *p2 = X[(i+1+2)%4], *p3 = X[i%4];
             NCScalar    a[3]{p1[0] - p0[0], p1[1] - p0[1], p1[2] - p0[2]},
                         b[3]{p2[0] - p0[0], p2[1] - p0[1], p2[2] - p0[2]},
                         c[3]{p3[0] - p0[0], p3[1] - p0[1], p3[2] - p0[2]};
-- 
2.43.0


From bd3047f54287d407d5e9b8aa69365f5fa0064dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:39 +0000
Subject: [PATCH 20/48] fix: LU_solve applied the inverse of the column
 permutation, wrong whenever it is no involution

---
 anifem++/fem/geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 582500a..8d65c87 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -353,7 +353,7 @@ namespace Ani{
         std::copy(X, X + N*M, B);
         for (int l = 0; l < M; ++l)
             for (int i = 0; i < N; ++i)
-                X[i + N*l] = B[q[i] + N*l];
+                X[q[i] + N*l] = B[i + N*l];
     }
 
     /// @brief Solve the problem AX = B for sqaure dense matrix using LU decomposition
-- 
2.43.0


From ce0bfdfc6641d435634e73aa5be73ae7ae1ab688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:39 +0000
Subject: [PATCH 21/48] fix: fullPivLU swapped with row and column -1 when the
 rest of the matrix is zero

---
 anifem++/fem/geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 8d65c87..18694ff 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -276,7 +276,7 @@ namespace Ani{
     inline void fullPivLU(Scalar* A, int N, int* p, int* q){
         #define A(i, j) A[(i) + (j)*N]
         for (int k = 0; k < N; k++){
-            int pi = -1, pj = -1;
+            int pi = k, pj = k;
             Scalar max = 0.0;
             //find pivot in submatrix a(k:n,k:n)
             for (int i = k; i < N; i++)
-- 
2.43.0


From b80766a9b4d4c6a7dc4d745a4a10718a79bfef3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:39 +0000
Subject: [PATCH 22/48] fix: fullPivLU left a column that is tiny against its
 pivot unscaled, so that L held wrong multipliers

---
 anifem++/fem/geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 18694ff..4308c2d 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -300,7 +300,7 @@ namespace Ani{
             //END PIVOT
     
             //check pivot size and decompose
-            if (max > 0.0 && max1 > 0.0 && max1 / max > std::numeric_limits<Scalar>::epsilon()){
+            if (max1 > 0.0){
                 for (int i = k+1; i < N; i++){
                     //Column normalisation
                     Scalar tmp = ( A(i,k) /= A(k,k) ) ;
-- 
2.43.0


From 0c5839e1fba6760a702213419273b32478a42ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:39 +0000
Subject: [PATCH 23/48] fix: fullPivLU_inverse overwrote the matrix before
 reading it when the result coincides with it

---
 anifem++/fem/geometry.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/anifem++/fem/geometry.h b/anifem++/fem/geometry.h
index 4308c2d..821e8a4 100644
--- a/anifem++/fem/geometry.h
+++ b/anifem++/fem/geometry.h
@@ -398,10 +398,16 @@ namespace Ani{
         Map<MatrixX<Scalar>> Invm(Inv, N, N);
         Invm = Am.fullPivLu().inverse();
 #else         
-        std::fill(Inv, Inv + N*N, 0);
-        for (int i = 0; i < N; ++i)
-            Inv[i+i*N] = 1;
-        fullPivLU_solve(A, Inv, N, N, Inv, mem, imem);
+        Scalar *Am = mem, *Bm = mem + N*N;
+        int *p = imem, *q = imem + N;
+        std::copy(A, A + N*N, Am);
+        std::fill(Bm, Bm + N*N, 0);
+        for (int i = 0; i < N; ++i){
+            Bm[i+i*N] = 1;
+            p[i] = q[i] = i;
+        }
+        fullPivLU(Am, N, p, q);
+        LU_solve(Am, N, p, q, Bm, Inv, N);
 #endif
     }
 
-- 
2.43.0


From 5e3e6cb15211bd3aab2b5607fdd580be799a279b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:10 +0000
Subject: [PATCH 24/48] fix: interpolateByRegion could not be instantiated and
 rejected work memory of the announced size

---
 anifem++/fem/operations/interpolate.inl | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/anifem++/fem/operations/interpolate.inl b/anifem++/fem/operations/interpolate.inl
index 3d14e76..64a53f8 100644
--- a/anifem++/fem/operations/interpolate.inl
+++ b/anifem++/fem/operations/interpolate.inl
@@ -36,8 +36,8 @@ namespace Ani{
         res.iSize += 0;
         auto pnt_mem0 = fem3DpntL_memory_requirements<Operator<IDEN, FEMTYPE>, Operator<IDEN, FEMTYPE>, ScalarType, IndexType>(nquads);
         auto pnt_mem1 = fem3DpntL_memory_requirements<Operator<IDEN, FemFix<FEM_P0>>, Operator<IDEN, FEMTYPE>, ScalarType, IndexType>(nquads);
-        res.dSize += std::max({pnt_mem0.dSize, pnt_mem1.dSize, static_cast<IndexType>(NFA*(NFA+1)/2)});
-        res.iSize += std::max({pnt_mem0.iSize, pnt_mem1.iSize, static_cast<IndexType>(NFA)});
+        res.dSize += std::max({pnt_mem0.dSize, pnt_mem1.dSize, static_cast<decltype(res.dSize)>(NFA*(NFA+1)/2)});
+        res.iSize += std::max({pnt_mem0.iSize, pnt_mem1.iSize, static_cast<decltype(res.iSize)>(NFA)});
 
         return res;
     }
@@ -47,13 +47,13 @@ namespace Ani{
         DofT::TetGeomSparsity sp;
         if (elem_type == DofT::NODE){
             sp.setNode(ielem);
-            interpolateByDOFs(XYZ, func, udofs, sp, user_data, max_quad_order);
+            interpolateByDOFs<FEMTYPE>(XYZ, func, udofs, sp, user_data, max_quad_order);
             return;
         }
 
         constexpr auto NFA = Operator<IDEN, FEMTYPE>::Nfa::value;
         auto d_alloc = [&plainMemory](auto sz)->ScalarType*{ 
-            if (plainMemory.dSize > sz){
+            if (plainMemory.dSize >= static_cast<std::size_t>(sz)){
                 plainMemory.dSize -= sz;
                 auto res = plainMemory.ddata;
                 plainMemory.ddata += sz;
@@ -63,7 +63,7 @@ namespace Ani{
             return nullptr;    
         };
         auto i_alloc = [&plainMemory](auto sz)->IndexType*{ 
-            if (plainMemory.iSize > sz){
+            if (plainMemory.iSize >= static_cast<std::size_t>(sz)){
                 plainMemory.iSize -= sz;
                 auto res = plainMemory.idata;
                 plainMemory.idata += sz;
@@ -74,7 +74,7 @@ namespace Ani{
         };
         ScalarType* am = d_alloc(NFA*NFA);
         ScalarType* fm = d_alloc(NFA);
-        ScalarType* xyl = nullptr, wg = nullptr;
+        ScalarType *xyl = nullptr, *wg = nullptr;
         IndexType nquads = 0;
         switch(DofT::DimToGeomType(DofT::GeomTypeDim(elem_type))) {
             case DofT::EDGE:{
-- 
2.43.0


From 7efd0a038cc3fe5f7a6ea567f3085d9cdb41005f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:10 +0000
Subject: [PATCH 25/48] fix: interpolation on an edge or a face read
 barycentric coordinates it never wrote

---
 anifem++/fem/fem_space.cpp              | 2 ++
 anifem++/fem/operations/interpolate.inl | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index ea03308..93db03d 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -160,6 +160,7 @@ namespace Ani{
                 xyl = d_alloc(4*nquads), wg = d_alloc(nquads);
                 for (uint i = 0; i < nquads; ++i){
                     auto q = formula.GetPointWeight(i);
+                    std::fill(xyl + 4*i, xyl + 4*i + 4, 0);
                     xyl[4*i + lookup_nds[2*ielem]] = q.p[0]; 
                     xyl[4*i + lookup_nds[2*ielem+1]] = q.p[1];
                     wg[i] = q.w;
@@ -173,6 +174,7 @@ namespace Ani{
                 xyl = d_alloc(4*nquads), wg = d_alloc(nquads);
                 for (uint i = 0; i < nquads; ++i){
                     auto q = formula.GetPointWeight(i);
+                    std::fill(xyl + 4*i, xyl + 4*i + 4, 0);
                     xyl[4*i + (ielem+0)%4] = q.p[0]; 
                     xyl[4*i + (ielem+1)%4] = q.p[1];
                     xyl[4*i + (ielem+2)%4] = q.p[2];
diff --git a/anifem++/fem/operations/interpolate.inl b/anifem++/fem/operations/interpolate.inl
index 64a53f8..aacf6fc 100644
--- a/anifem++/fem/operations/interpolate.inl
+++ b/anifem++/fem/operations/interpolate.inl
@@ -85,6 +85,7 @@ namespace Ani{
                 xyl = d_alloc(4*nquads), wg = d_alloc(nquads);
                 for (int i = 0; i < nquads; ++i){
                     auto q = formula.GetPointWeight(i);
+                    std::fill(xyl + 4*i, xyl + 4*i + 4, 0);
                     xyl[4*i + lookup_nds[2*ielem]] = q.p[0]; 
                     xyl[4*i + lookup_nds[2*ielem+1]] = q.p[1];
                     wg[i] = q.w;
@@ -98,6 +99,7 @@ namespace Ani{
                 xyl = d_alloc(4*nquads), wg = d_alloc(nquads);
                 for (int i = 0; i < nquads; ++i){
                     auto q = formula.GetPointWeight(i);
+                    std::fill(xyl + 4*i, xyl + 4*i + 4, 0);
                     xyl[4*i + (ielem+0)%4] = q.p[0]; 
                     xyl[4*i + (ielem+1)%4] = q.p[1];
                     xyl[4*i + (ielem+2)%4] = q.p[2];
-- 
2.43.0


From 4275dee70e1cf1c9cf3f0e4e62333b1be0898996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:49 +0000
Subject: [PATCH 26/48] fix: interpolateOnRegion evaluated a destroyed
 temporary space

---
 anifem++/fem/fem_space.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index 93db03d..769f43b 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -114,7 +114,8 @@ namespace Ani{
         PlainMemoryX<> mem_req;
         mem_req.dSize += nfa*nfa + nfa + 5*nquads;
         auto aplIDEN = getOP(IDEN);
-        auto aplP0 = P0Space().getOP(IDEN);
+        P0Space p0;
+        auto aplP0 = p0.getOP(IDEN);
         PlainMemoryX<> pnt_mem0 = fem3DpntL_memory_requirements<DfuncTraits<TENSOR_NULL>>(aplIDEN, aplIDEN, nquads, 1);
         PlainMemoryX<> pnt_mem1 = fem3DpntL_memory_requirements<DfuncTraits<TENSOR_GENERAL>>(aplP0, aplIDEN, nquads, 1);
         mem_req.dSize += std::max({pnt_mem0.dSize, pnt_mem1.dSize, static_cast<decltype(pnt_mem0.dSize)>(nfa*(nfa+1)/2)});
@@ -134,7 +135,8 @@ namespace Ani{
         uint nquads = 0;
         auto geom_tp = DofT::DimToGeomType(DofT::GeomTypeDim(elem_type));
         auto aplIDEN = getOP(IDEN);
-        auto aplP0 = P0Space().getOP(IDEN);
+        P0Space p0;
+        auto aplP0 = p0.getOP(IDEN);
         auto d_alloc = [&mem_req](int sz)->double*{ 
             assert(mem_req.dSize >= static_cast<std::size_t>(sz) && "Not enough real memory");
             mem_req.dSize -= sz;
-- 
2.43.0


From f94854be334c59efdb3e38488689875ad1d1c489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:06 +0000
Subject: [PATCH 27/48] fix: interpolateOnRegion at a node announced less work
 memory than it needs for vector spaces

---
 anifem++/fem/fem_space.cpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/anifem++/fem/fem_space.cpp b/anifem++/fem/fem_space.cpp
index 769f43b..b136542 100644
--- a/anifem++/fem/fem_space.cpp
+++ b/anifem++/fem/fem_space.cpp
@@ -81,18 +81,8 @@ namespace Ani{
         return ApplyOpFromSpaceView(op, this);
     }
     PlainMemoryX<> BaseFemSpace::interpolateOnRegion_mem_req(uchar elem_type, uint max_quad_order) const{
-        if (elem_type == DofT::NODE){
-            DofT::TetGeomSparsity sp;
-            sp.setNode(0);
-            PlainMemoryX<> res;
-            for (auto it = m_order.beginBySparsity(sp); it != m_order.endBySparsity(); ++it){
-                auto lres = interpolateOnDOF_mem_req(it->gid, max_quad_order);
-                res.dSize = std::max(res.dSize, lres.dSize);
-                res.iSize = std::max(res.iSize, lres.iSize);
-                res.mSize = std::max(res.mSize, lres.mSize);
-            }
-            return res;
-        }
+        if (elem_type == DofT::NODE)
+            return interpolateByDOFs_mem_req(max_quad_order);
         uint nfa = m_order.NumDofOnTet();
         uint nquads = 0;
         auto geom_tp = DofT::DimToGeomType(DofT::GeomTypeDim(elem_type));
-- 
2.43.0


From 2b5ccd917882f4a5c44157e969b4a29258f2db50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:34 +0000
Subject: [PATCH 28/48] fix: operator>= of symbolic expressions compared with
 <=

---
 anifem++/fem/expr_interface.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/expr_interface.inl b/anifem++/fem/expr_interface.inl
index f5adc38..f9fea98 100644
--- a/anifem++/fem/expr_interface.inl
+++ b/anifem++/fem/expr_interface.inl
@@ -99,7 +99,7 @@ namespace Ani{
     APPL_OP_FULL2(operator<, lt)
     APPL_OP_FULL2(operator<=, le)
     APPL_OP_FULL2(operator>, gt)
-    APPL_OP_FULL2(operator>=, le)
+    APPL_OP_FULL2(operator>=, ge)
     APPL_OP_FULL2(operator==, eq)
     APPL_OP_FULL2(operator!=, ne)
     APPL_OP_FULL2(operator&&, and)
-- 
2.43.0


From cc350a0b7d3e5b3576f0a00ffa91723e4ac2362d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:34 +0000
Subject: [PATCH 29/48] fix: default row and column of a symbolic expression
 took the rest of the matrix

---
 anifem++/fem/expr_interface.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/expr_interface.h b/anifem++/fem/expr_interface.h
index 12034ac..e37bb2a 100644
--- a/anifem++/fem/expr_interface.h
+++ b/anifem++/fem/expr_interface.h
@@ -34,8 +34,8 @@ namespace Ani{
         virtual BaseExpr& set_sub_matrix(const BaseExpr& val, std::size_t i_start, long i_inc, std::size_t j_start, long j_inc) = 0;
         virtual BaseExpr& set_horzcat(const BaseExpr** vals_begin, const BaseExpr** vals_end) = 0;
         virtual BaseExpr& set_vertcat(const BaseExpr** vals_begin, const BaseExpr** vals_end) = 0;
-        virtual BaseExpr& set_row(const BaseExpr& val, std::size_t i) { return set_sub_matrix(val, i, size1(), 0, 1); }
-        virtual BaseExpr& set_col(const BaseExpr& val, std::size_t j) { return set_sub_matrix(val, 0, 1, j, size2()); }
+        virtual BaseExpr& set_row(const BaseExpr& val, std::size_t i) { return set_sub_matrix(val, i, val.size1(), 0, 1); }
+        virtual BaseExpr& set_col(const BaseExpr& val, std::size_t j) { return set_sub_matrix(val, 0, 1, j, val.size2()); }
         virtual BaseExpr& set_scal_sum(const BaseExpr** vals_begin, const BaseExpr** vals_end, const double* coefs) = 0;
         virtual BaseExpr& set_sum(const BaseExpr** vals_begin, const BaseExpr** vals_end) = 0;
         virtual BaseExpr& set_sum(const BaseExpr& a, const BaseExpr& b){ const BaseExpr* arr[2]{&a, &b}; return set_sum(arr, arr+2); }
-- 
2.43.0


From a7e647efa07d03fee4af4bcc83c8e8732880698b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:34 +0000
Subject: [PATCH 30/48] fix: entry of a symbolic expression one past the last
 row or column was accepted

---
 anifem++/fem/expr_interface.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/expr_interface.h b/anifem++/fem/expr_interface.h
index e37bb2a..09b1c1c 100644
--- a/anifem++/fem/expr_interface.h
+++ b/anifem++/fem/expr_interface.h
@@ -164,7 +164,7 @@ namespace Ani{
             return *this;          
         }
         Expr operator()(std::size_t i, std::size_t j) const {
-            if (i > nrows() || j > ncols())
+            if (i >= nrows() || j >= ncols())
                 throw std::runtime_error("Sizes of expression: " + std::to_string(nrows()) + "x" + std::to_string(ncols()) 
                     + ", but requested value at (" + std::to_string(i) + ", " + std::to_string(j) + ")");
             Expr res = zeroes();
-- 
2.43.0


From ca123de3bdfd8c4bdbdb18472bb489d3a37d7c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:34 +0000
Subject: [PATCH 31/48] fix: copying an empty symbolic expression dereferenced
 a null pointer

---
 anifem++/fem/expr_interface.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/expr_interface.h b/anifem++/fem/expr_interface.h
index 09b1c1c..1292e1c 100644
--- a/anifem++/fem/expr_interface.h
+++ b/anifem++/fem/expr_interface.h
@@ -112,12 +112,12 @@ namespace Ani{
         explicit Expr(const ExprT& f, typename std::enable_if<std::is_base_of<BaseExpr, ExprT>::value>::type* = 0): m_invoker{new ExprT(f)} {}
         template<typename ExprT>
         explicit Expr(ExprT&& f, typename std::enable_if<std::is_base_of<BaseExpr, ExprT>::value>::type* = 0): m_invoker{new ExprT(std::move(f))} {}
-        Expr(const Expr &other): m_invoker(other.m_invoker->makeCopy()) {} 
+        Expr(const Expr &other): m_invoker(other.m_invoker ? other.m_invoker->makeCopy() : nullptr) {} 
         Expr(Expr &&) = default;
         Expr() = default;
         explicit Expr(const std::shared_ptr<BaseExpr>& expr): m_invoker(std::move(expr->makeCopy())) {}
         explicit Expr(std::shared_ptr<BaseExpr>&& expr): m_invoker(std::move(expr)) {}
-        Expr& operator=(const Expr &f){ return m_invoker = f.m_invoker->makeCopy(), *this; }
+        Expr& operator=(const Expr &f){ return m_invoker = f.m_invoker ? f.m_invoker->makeCopy() : nullptr, *this; }
         Expr& operator=(Expr &&f){ return m_invoker = std::move(f.m_invoker), *this; }
         template<typename ExprT, typename std::enable_if<std::is_base_of<BaseExpr, ExprT>::value>::type* = 0>
         Expr& operator=(const ExprT& x){ 
-- 
2.43.0


From d85ce257662d01c6badf007afc068a8a552cb8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:34 +0000
Subject: [PATCH 32/48] fix: assignments of expression objects did not compile

---
 anifem++/fem/expr_interface.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/anifem++/fem/expr_interface.h b/anifem++/fem/expr_interface.h
index 1292e1c..5f42e6a 100644
--- a/anifem++/fem/expr_interface.h
+++ b/anifem++/fem/expr_interface.h
@@ -119,7 +119,7 @@ namespace Ani{
         explicit Expr(std::shared_ptr<BaseExpr>&& expr): m_invoker(std::move(expr)) {}
         Expr& operator=(const Expr &f){ return m_invoker = f.m_invoker ? f.m_invoker->makeCopy() : nullptr, *this; }
         Expr& operator=(Expr &&f){ return m_invoker = std::move(f.m_invoker), *this; }
-        template<typename ExprT, typename std::enable_if<std::is_base_of<BaseExpr, ExprT>::value>::type* = 0>
+        template<typename ExprT, typename std::enable_if<std::is_base_of<BaseExpr, ExprT>::value>::type* = nullptr>
         Expr& operator=(const ExprT& x){ 
             if (m_invoker)
                 m_invoker->set_val(x);
@@ -127,9 +127,9 @@ namespace Ani{
                 m_invoker = std::move(x.makeCopy()); 
             return *this; 
         }
-        template<typename ExprT, typename std::enable_if<std::is_base_of<BaseExpr, ExprT>::value>::type* = 0>
+        template<typename ExprT, typename std::enable_if<std::is_base_of<BaseExpr, ExprT>::value>::type* = nullptr>
         Expr& operator=(std::shared_ptr<ExprT>&& x){ m_invoker = std::move(x); return *this; }
-        template<typename ExprT, typename std::enable_if<std::is_base_of<BaseExpr, ExprT>::value>::type* = 0>
+        template<typename ExprT, typename std::enable_if<std::is_base_of<BaseExpr, ExprT>::value>::type* = nullptr>
         Expr& operator=(const std::shared_ptr<ExprT>& x){ m_invoker = std::move(x->makeCopy()); return *this; }
         
         Expr& operator=(double x){ 
-- 
2.43.0


From d587282662988ad088491f2b89c22fb4f21bd009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:34 +0000
Subject: [PATCH 33/48] fix: symbolic P3 face functions were not in the order
 of the faces

---
 anifem++/fem/spaces/poly_3.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/anifem++/fem/spaces/poly_3.h b/anifem++/fem/spaces/poly_3.h
index 74557ac..28405c1 100644
--- a/anifem++/fem/spaces/poly_3.h
+++ b/anifem++/fem/spaces/poly_3.h
@@ -185,12 +185,10 @@ namespace Ani{
                     *phi = 4.5 * lmb(j, 0) * lmb(k, 0) * (3*lmb(id, 0) - 1);
                     ++phi;
                 }   
-            for (int j = 0; j < 4; ++j)
-            for (int k = j+1; k < 4; ++k)
-                for (int l = k+1; l < 4; ++l){
-                    *phi = 27 * lmb(j, 0) * lmb(k, 0) * lmb(l, 0); 
-                    ++phi;
-                }
+            for (int j = 0; j < 4; ++j){
+                *phi = 27 * lmb(j, 0) * lmb((j+1)%4, 0) * lmb((j+2)%4, 0); 
+                ++phi;
+            }
         }
     };
 
-- 
2.43.0


From 403c1493faabda6b57e17509c723a48d6d848365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:34 +0000
Subject: [PATCH 34/48] fix: symbolic Nedelec functions mixed rows and columns
 of the gradients

---
 anifem++/fem/spaces/nedelec_0.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/anifem++/fem/spaces/nedelec_0.h b/anifem++/fem/spaces/nedelec_0.h
index 5a460fc..6fb7ce6 100644
--- a/anifem++/fem/spaces/nedelec_0.h
+++ b/anifem++/fem/spaces/nedelec_0.h
@@ -229,15 +229,15 @@ namespace Ani{
     struct Basis<FemFix<FEM_ND0>>{
         static void eval(const Expr& lmb /*4x1*/, const Expr& grad_lmb/*4x3*/, Expr* phi){
             using namespace FT;
-            auto V = det3x3(vertcat({grad_lmb.col(0), grad_lmb.col(1), grad_lmb.col(2)}));
+            auto V = det3x3(vertcat({grad_lmb.row(1), grad_lmb.row(2), grad_lmb.row(3)}));
             static const unsigned char IPR[4*6] = {0,1,2,3, 0,2,3,1, 0,3,1,2, 1,2,0,3, 1,3,2,0, 2,3,0,1};
             for (int i = 0; i < 6; ++i){
-                auto l0 = grad_lmb.col(IPR[6*i+0]).T();
-                auto l1 = grad_lmb.col(IPR[6*i+1]).T();
-                auto l2 = grad_lmb.col(IPR[6*i+2]).T();
-                auto l3 = grad_lmb.col(IPR[6*i+3]).T();
+                auto l0 = grad_lmb.row(IPR[4*i+0]).T();
+                auto l1 = grad_lmb.row(IPR[4*i+1]).T();
+                auto l2 = grad_lmb.row(IPR[4*i+2]).T();
+                auto l3 = grad_lmb.row(IPR[4*i+3]).T();
                 auto e = norm(cross(l2, l3) / V);
-                phi[i] = 6*e*(lmb(IPR[6*i+0], 0)*l1 - lmb(IPR[6*i+1], 0)*l0);
+                phi[i] = e*(lmb(IPR[4*i+0], 0)*l1 - lmb(IPR[4*i+1], 0)*l0);
             } 
         }
     };
-- 
2.43.0


From f7b50fa168a8c76476fa4ca7e1b8ed569d95751b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:34 +0000
Subject: [PATCH 35/48] fix: symbolic Raviart-Thomas functions mixed rows and
 columns of the gradients

---
 anifem++/fem/spaces/raviant_thomas_0.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/anifem++/fem/spaces/raviant_thomas_0.h b/anifem++/fem/spaces/raviant_thomas_0.h
index 1d330b6..ee915f0 100644
--- a/anifem++/fem/spaces/raviant_thomas_0.h
+++ b/anifem++/fem/spaces/raviant_thomas_0.h
@@ -236,12 +236,12 @@ namespace Ani{
     struct Basis<FemFix<FEM_RT0>>{
         static void eval(const Expr& lmb /*4x1*/, const Expr& grad_lmb/*4x3*/, Expr* phi){
             using namespace FT;
-            auto V = abs(det3x3(vertcat({grad_lmb.col(0), grad_lmb.col(1), grad_lmb.col(2)})));
+            auto V = det3x3(vertcat({grad_lmb.row(1), grad_lmb.row(2), grad_lmb.row(3)}));
             for (int i = 0; i < 4; ++i)
-                phi[i] = norm(grad_lmb.col((i+3)%4))/V * (
-                        lmb((i+0)%4, 0)*cross( grad_lmb.col((i+1)%4).T(), grad_lmb.col((i+2)%4).T() ) + 
-                        lmb((i+1)%4, 0)*cross( grad_lmb.col((i+2)%4).T(), grad_lmb.col((i+0)%4).T() ) +
-                        lmb((i+2)%4, 0)*cross( grad_lmb.col((i+0)%4).T(), grad_lmb.col((i+1)%4).T() )
+                phi[i] = (i%2 ? 1.0 : -1.0)*norm(grad_lmb.row((i+3)%4))/V * (
+                        lmb((i+0)%4, 0)*cross( grad_lmb.row((i+1)%4).T(), grad_lmb.row((i+2)%4).T() ) + 
+                        lmb((i+1)%4, 0)*cross( grad_lmb.row((i+2)%4).T(), grad_lmb.row((i+0)%4).T() ) +
+                        lmb((i+2)%4, 0)*cross( grad_lmb.row((i+0)%4).T(), grad_lmb.row((i+1)%4).T() )
                         ); 
         }
     };
-- 
2.43.0


From 202e765e411742e161eb19368253a53b408d5437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:34 +0000
Subject: [PATCH 36/48] fix: coordinate of the P0 degree of freedom was added
 to the output

---
 anifem++/fem/operators.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/anifem++/fem/operators.h b/anifem++/fem/operators.h
index 7429522..e5de52f 100644
--- a/anifem++/fem/operators.h
+++ b/anifem++/fem/operators.h
@@ -732,10 +732,8 @@ namespace Ani{
         static inline void at(int odf, const ScalarType *nodes, ScalarType *coord){
             assert(odf == 0 && "FEM_P0 have only 1 odf");
             (void) odf;
-            for (int i = 0; i < 4; ++i)
-                for (int k = 0; k < 3; ++k)
-                    coord[k] += nodes[3 * i + k];
-            for (int k = 0; k < 3; ++k) coord[k] /= 4;
+            for (int k = 0; k < 3; ++k)
+                coord[k] = (nodes[k] + nodes[3 + k] + nodes[6 + k] + nodes[9 + k]) / 4;
         }
     };
 
-- 
2.43.0


From 31c05c2f6932b2d7fac04b4080af68bb10fe4149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:34 +0000
Subject: [PATCH 37/48] fix: coordinates of the P3 face degrees of freedom were
 not in the order of the faces

---
 anifem++/fem/operators.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/anifem++/fem/operators.h b/anifem++/fem/operators.h
index e5de52f..de70531 100644
--- a/anifem++/fem/operators.h
+++ b/anifem++/fem/operators.h
@@ -771,8 +771,7 @@ namespace Ani{
             if (odf < 4)
                 std::copy(nodes + 3 * odf, nodes + 3 * odf + 3, coord);
             else if (odf >= 16) {
-                odf -= 15;
-                int i1 = (odf == 4), i2 = 1 + (odf > 2), i3 = 3 - (odf == 1);
+                int i1 = odf - 16, i2 = (i1 + 1) % 4, i3 = (i1 + 2) % 4;
                 for (int i = 0; i < 3; ++i)
                     coord[i] = (nodes[3 * i1 + i] + nodes[3 * i2 + i] + nodes[3 * i3 + i]) / 3;
             } else {
-- 
2.43.0


From 64be9f36bd44a328673529d8f1d429f2b2f155ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:34 +0000
Subject: [PATCH 38/48] fix: coordinates of the Crouzeix-Raviart degrees of
 freedom were those of another face

---
 anifem++/fem/operators.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/fem/operators.h b/anifem++/fem/operators.h
index de70531..d072b1a 100644
--- a/anifem++/fem/operators.h
+++ b/anifem++/fem/operators.h
@@ -794,7 +794,7 @@ namespace Ani{
         template<typename ScalarType = double>
         static inline void at(int odf, const ScalarType  *nodes, ScalarType  *coord){
             for (int i = 0; i < 3; ++i)
-                coord[i] = (nodes[i + 3*((odf + 1) % 4)] + nodes[i + 3*((odf + 2) % 4)] + nodes[i + 3*((odf + 3) % 4)]) / 3;
+                coord[i] = (nodes[i + 3*odf] + nodes[i + 3*((odf + 1) % 4)] + nodes[i + 3*((odf + 2) % 4)]) / 3;
         }
     };
 
-- 
2.43.0


From 862901f7947b27aa2053b445a5ce9125ceb21ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:34 +0000
Subject: [PATCH 39/48] fix: coordinates of degrees of freedom of composite
 spaces did not compile

---
 anifem++/fem/operators.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/fem/operators.h b/anifem++/fem/operators.h
index d072b1a..5ab2cdb 100644
--- a/anifem++/fem/operators.h
+++ b/anifem++/fem/operators.h
@@ -840,7 +840,7 @@ namespace Ani{
                 if (odf < OFF + Operator<IDEN, LocalVar>::Nfa::value){
                     DOF_coord<LocalVar>::template at<ScalarType>(odf - OFF, nodes, coord);
                 } else {
-                    FindStart<I+1, N, OFF + Operator<IDEN, LocalVar>::Nfa::value>(odf, nodes, coord);
+                    FindStart<I+1, N, OFF + Operator<IDEN, LocalVar>::Nfa::value>::Impl(odf, nodes, coord);
                 }
             }
         };
@@ -870,7 +870,7 @@ namespace Ani{
                 if (odf < OFF + Operator<IDEN, LocalVar>::Nfa::value){
                     DOF_coord<LocalVar>::template at<ScalarType>(odf - OFF, nodes, coord);
                 } else {
-                    FindStart<I+1, N, OFF + Operator<IDEN, LocalVar>::Nfa::value>(odf, nodes, coord);
+                    FindStart<I+1, N, OFF + Operator<IDEN, LocalVar>::Nfa::value>::Impl(odf, nodes, coord);
                 }
             }
         };
-- 
2.43.0


From 1226397067234cc259adf8ca0d2f3333e8bb217a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:31 +0000
Subject: [PATCH 40/48] fix: memory pool handed out memory still in use after
 releases out of order

---
 anifem++/fem/fem_memory.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/anifem++/fem/fem_memory.h b/anifem++/fem/fem_memory.h
index 723e03c..2335452 100644
--- a/anifem++/fem/fem_memory.h
+++ b/anifem++/fem/fem_memory.h
@@ -410,6 +410,7 @@ namespace Ani{
             std::vector<DM>         mdata;
             std::size_t rbusy = 0, ibusy = 0, mbusy = 0;
             std::size_t nparts = 0; //number of memory parts where pointers from the vectors are used
+            std::size_t next_id = 0; //id of the next memory part, the part allocated last has id next_id - 1
         };
         struct MemPart{  
             PlainMemoryX<ScalarType, IndexType> m_mem;
@@ -485,7 +486,7 @@ namespace Ani{
                 if (chunk->mbusy == 0 && chunk->mdata.size() < msize) chunk->mdata.resize(msize);
                 res.m_mem.mdata = chunk->mdata.data() + chunk->mbusy; chunk->mbusy += msize; res.m_mem.mSize = msize;
             }
-            res.m_part_id = chunk->nparts;
+            res.m_part_id = chunk->next_id++;
             chunk->nparts++;
             return res;
         }
@@ -509,10 +510,12 @@ namespace Ani{
         virtual void clearChunk(std::size_t chunk_id, std::size_t part_id, std::size_t dSize, std::size_t iSize, std::size_t mSize) {
             auto& chunk = m_chunks[chunk_id];
             chunk.nparts--;
-            if (chunk.nparts == part_id)
+            if (chunk.next_id == part_id + 1){
                 chunk.rbusy -= dSize, chunk.ibusy -= iSize, chunk.mbusy -= mSize;
+                chunk.next_id = part_id;
+            }
             if (chunk.nparts == 0)
-                chunk.rbusy = chunk.ibusy = chunk.mbusy = 0;
+                chunk.rbusy = chunk.ibusy = chunk.mbusy = chunk.next_id = 0;
         }
     public:    
     //protected:
-- 
2.43.0


From 21bbcb5ed9706ce02b1298b09bb80383bf069464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:31 +0000
Subject: [PATCH 41/48] fix: parallel_for with std::thread did not compile

---
 anifem++/fem/mutex_type.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/anifem++/fem/mutex_type.h b/anifem++/fem/mutex_type.h
index f52d9e7..7b58bea 100644
--- a/anifem++/fem/mutex_type.h
+++ b/anifem++/fem/mutex_type.h
@@ -5,8 +5,12 @@
 #ifndef CARNUM_MUTEX_TYPE_H
 #define CARNUM_MUTEX_TYPE_H
 
-#include <thread>
+#include <algorithm>
+#include <cassert>
+#include <functional>
 #include <mutex>
+#include <thread>
+#include <vector>
 #ifdef WITH_OPENMP
 #include <omp.h>
 #endif
@@ -121,11 +125,11 @@ namespace ThreadPar{
 
             std::vector< std::thread > work_threads(nthreads - 1);
             for (int i = 0; i < nthreads - 1; ++i)
-                work_threads[i] = std::thread(perform_for_on_thread, i+1,
+                work_threads[i] = std::thread([&, i](RandAccIterator from, RandAccIterator to){ perform_for_on_thread(i+1, f, from, to, args...); },
                                 beg + batch_size*i + (i < batch_remainder ? i : batch_remainder), 
-                                beg + batch_size*(i+1) + ((i+1) < batch_remainder ? (i+1) : batch_remainder), 
-                                args...);
-            perform_for_on_thread(0, f, beg + batch_size*(nthreads - 1) + batch_remainder, end, args...);
+                                beg + batch_size*(i+1) + ((i+1) < batch_remainder ? (i+1) : batch_remainder));
+            RandAccIterator last_beg = beg + batch_size*(nthreads - 1) + batch_remainder;
+            perform_for_on_thread(0, f, last_beg, end, args...);
             std::for_each(work_threads.begin(), work_threads.end(), std::mem_fn(&std::thread::join));
         }
     };
-- 
2.43.0


From 7788225b3feffc728f0f1f0022b747ed3a21c432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:31 +0000
Subject: [PATCH 42/48] fix: DynMemParallel::get read the shared table without
 the lock

---
 anifem++/fem/fem_memory_parallel.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/anifem++/fem/fem_memory_parallel.h b/anifem++/fem/fem_memory_parallel.h
index 3a25f86..d7bf44e 100644
--- a/anifem++/fem/fem_memory_parallel.h
+++ b/anifem++/fem/fem_memory_parallel.h
@@ -80,7 +80,10 @@ struct DynMemParallel{
         m_unused.clear();
         m_mem.clear();
     }
-    DynMem<Real, Int>* get(Int mem_id){ return m_mem[mem_id].get(); }
+    DynMem<Real, Int>* get(Int mem_id){
+        std::lock_guard<MutexType> lock(m_mutex);
+        return m_mem[mem_id].get();
+    }
 
 
 protected:
-- 
2.43.0


From 54162c982a5a4f39c29e97f17b99c736becd1404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:41 +0000
Subject: [PATCH 43/48] fix: insertion of an infinite interval over another
 infinite one with a different value was accepted

---
 anifem++/interval/interval_map.inl | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/anifem++/interval/interval_map.inl b/anifem++/interval/interval_map.inl
index 3f9629b..93467b8 100644
--- a/anifem++/interval/interval_map.inl
+++ b/anifem++/interval/interval_map.inl
@@ -207,9 +207,11 @@ namespace Ani{
             if (it->first.m_end == start_interval)
                 it_st = it;
         }
+        if (bnd_type == 1 && (boundary_status & 1)) //< both are infinite to the left
+            it_st = m_map_list.begin();
         if ((boundary_status & 2) && it_st == m_map_list.end()){ //< extra logic for case m_start = m_end if right-infinity
             auto b = m_map_list.back().first;
-            if (b.m_end == b.m_start && b.m_end == start_interval && !(bnd_type == 1 && start_interval == end_interval))
+            if (bnd_type == 2 || (b.m_end == b.m_start && b.m_end == start_interval && !(bnd_type == 1 && start_interval == end_interval)))
                 it_st = std::prev(it_st);
         }
         auto it_st0 = it_st;
@@ -222,9 +224,11 @@ namespace Ani{
                     std::lower_bound(it_st0, m_map_list.end(), end_interval, [&cmp = m_comp](auto a, auto b){ return cmp(a.first.m_start, b); }) : m_map_list.end();
         if ((boundary_status & 1) && it_end == m_map_list.begin()){ //< extra logic for case m_start = m_end if left infinity
             auto b = m_map_list.front().first;
-            if (b.m_start == b.m_end && b.m_start == end_interval)
+            if (bnd_type == 1 || (b.m_start == b.m_end && b.m_start == end_interval))
                 it_end = std::next(it_end);
         }
+        if (bnd_type == 2)
+            it_end = m_map_list.end();
         auto it_end0 = it_end;
         if (it_end != m_map_list.end() && it_end->first.m_start == end_interval && it_end->second == value)
             ++it_end;
-- 
2.43.0


From dc914d6948062bfb8db9630aefebc9eb47500898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:41 +0000
Subject: [PATCH 44/48] fix: operator>= of the iterator over external interval
 memory compared with <

---
 anifem++/interval/interval_enum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/interval/interval_enum.h b/anifem++/interval/interval_enum.h
index ff67e69..1e78ebf 100644
--- a/anifem++/interval/interval_enum.h
+++ b/anifem++/interval/interval_enum.h
@@ -74,7 +74,7 @@ struct interval_external_memory{
         bool operator< (const const_iterator & other) const { return m_p < other.m_p; }
         bool operator> (const const_iterator & other) const { return m_p > other.m_p; }
         bool operator<=(const const_iterator & other) const { return m_p <= other.m_p; }
-        bool operator>=(const const_iterator & other) const { return m_p < other.m_p; }
+        bool operator>=(const const_iterator & other) const { return m_p >= other.m_p; }
         reference operator*() const { m_val.first = *m_p, m_val.second = *(m_p+1); return m_val; }
         pointer operator ->() const { m_val.first = *m_p, m_val.second = *(m_p+1); return &m_val; }
         value_type operator[](difference_type n) const {  return {*(m_p+2*n), *(m_p+2*n+1) }; }
-- 
2.43.0


From 9ef8ea364fec598ed2823928f89cf385b308326d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:41 +0000
Subject: [PATCH 45/48] fix: operator>= of iterators over extended arrays
 compared with <

---
 anifem++/interval/ext_array_enum.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anifem++/interval/ext_array_enum.h b/anifem++/interval/ext_array_enum.h
index 44ef68b..88299b3 100644
--- a/anifem++/interval/ext_array_enum.h
+++ b/anifem++/interval/ext_array_enum.h
@@ -83,7 +83,7 @@ public:
         bool operator < (const iterator & other) const { return id.first < other.id.first; }
         bool operator > (const iterator & other) const { return id.first > other.id.first; }
         bool operator <=(const iterator & other) const { return id.first <= other.id.first; }
-        bool operator >=(const iterator & other) const { return id.first < other.id.first; }
+        bool operator >=(const iterator & other) const { return id.first >= other.id.first; }
         reference operator*() const { return id; }
         pointer operator ->() const { return &id; }
         iterator& operator ++() { return *this = std::move(ptr->next_it(*this)); }
@@ -171,7 +171,7 @@ public:
         bool operator < (const iterator & other) const { return it2 < other.it2; }
         bool operator > (const iterator & other) const { return it2 > other.it2; }
         bool operator <=(const iterator & other) const { return it2 <= other.it2; }
-        bool operator >=(const iterator & other) const { return it2 < other.it2; }
+        bool operator >=(const iterator & other) const { return it2 >= other.it2; }
         reference operator*() const { return val; }
         pointer operator ->() const { return &val; }
         iterator& operator ++();
-- 
2.43.0


From d8c499b6e184443fbab98eac0e4ac9f89e5f7855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:41 +0000
Subject: [PATCH 46/48] fix: operator-= of the iterator over extended arrays
 moved forward

---
 anifem++/interval/ext_array_enum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/interval/ext_array_enum.h b/anifem++/interval/ext_array_enum.h
index 88299b3..9624509 100644
--- a/anifem++/interval/ext_array_enum.h
+++ b/anifem++/interval/ext_array_enum.h
@@ -91,7 +91,7 @@ public:
         iterator& operator --() { return *this = std::move(ptr->prev_it(*this)); }
         iterator  operator --(int) { iterator ret(*this); operator--(); return ret;}
         iterator& operator +=(difference_type n) { return *this = std::move(ptr->begin(id.first+n)); }
-        iterator& operator -=(difference_type n) { return *this = std::move(ptr->begin(id.first+n)); }
+        iterator& operator -=(difference_type n) { return *this = std::move(ptr->begin(id.first-n)); }
         friend iterator operator+(const iterator& a, difference_type n) { iterator b(a); return b+=n; }
         friend iterator operator+(difference_type n, const iterator& a) { return a + n; }
         friend iterator operator-(const iterator& a, difference_type n) { iterator b(a); return b-=n; }
-- 
2.43.0


From d06c31a55d59f1ebbc0194cf524460d8df3ce25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:41 +0000
Subject: [PATCH 47/48] fix: lower_bound of extended arrays read past the last
 base array

---
 anifem++/interval/ext_array_enum.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/interval/ext_array_enum.inl b/anifem++/interval/ext_array_enum.inl
index 682d5ac..28cd05a 100644
--- a/anifem++/interval/ext_array_enum.inl
+++ b/anifem++/interval/ext_array_enum.inl
@@ -828,7 +828,7 @@ typename ext_range_array_enum<N, RangeFunc, UInt, GInt>::iterator ext_range_arra
             if (beta() >= rg_size(it->first[m])) continue;
             if (!compare_arr(it->first, jd)){
                 auto kt = std::lower_bound(jt, m_ord.end(), (it->first == jd) ? id : it->first, compare_arr);
-                if(check_ed(*kt, it->first)){
+                if(kt != m_ord.end() && check_ed(*kt, it->first)){
                     for (unsigned k = 0; k < N; ++k)
                         alpha(k) = (*kt)[k];
                     return begin(this->operator[](res));    
-- 
2.43.0


From 480d85b68dc73e420b9e34dca4ad80d6f177ad00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:41 +0000
Subject: [PATCH 48/48] fix: ext_array_enum::contains asked for an array of
 which only one number was set

---
 anifem++/interval/ext_array_enum.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anifem++/interval/ext_array_enum.inl b/anifem++/interval/ext_array_enum.inl
index 28cd05a..ee677f6 100644
--- a/anifem++/interval/ext_array_enum.inl
+++ b/anifem++/interval/ext_array_enum.inl
@@ -914,7 +914,7 @@ bool ext_array_enum<N, NV, T1, UInt, GInt, T4>::contains(const std::array<UInt,
     if (i[m] >= NV) return false;
     auto it1 = m_int_enum[i[m]].find_right(i[n]); 
     if (it1 == m_int_enum[i[m]].end()) return false;
-    std::array<UInt, N+1> j;
+    auto j = i;
     j[n] = it1->first;
     return m_arr_enum.contains(j);
 }
-- 
2.43.0

