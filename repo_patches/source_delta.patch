From 7ccbb387761768b80b6b5a45b7bab15d57bc720d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 01/52] fix: GSS4 picks the wrong diagonal entries on a proper
 subset of rows

---
 src/base/smoothers/gssmoother.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/smoothers/gssmoother.cpp b/src/base/smoothers/gssmoother.cpp
index 4386934..e724b44 100644
--- a/src/base/smoothers/gssmoother.cpp
+++ b/src/base/smoothers/gssmoother.cpp
@@ -428,7 +428,7 @@ GSS4<TM> :: GSS4 (shared_ptr<SparseMatrix<TM>> A, FlatArray<TM> repl_diag, share
       if (repl_diag.Size())
         { dinv[i] = repl_diag[xdofs[i]]; }
       else
-        { dinv[i] = ncA(i, i); } // yeah, that is correct
+        { dinv[i] = ncA(i, xdofs[i]); } // compressed rows, original column numbers
       if (pinv)
         { HeapReset hr(lh); CalcPseudoInverseTryNormal(dinv[i], lh); }
       else
@@ -517,7 +517,7 @@ void GSS4<TM> :: CalcDiags ()
   ParallelForRange (IntRange(dinv.Size()), [&] ( IntRange r ) {
 LocalHeap lh = glh.Split();
 for (auto i : r) {
-  dinv[i] = ncA(i, i);
+  dinv[i] = ncA(i, xdofs[i]); // compressed rows, original column numbers
   if (pinv)
     { HeapReset hr(lh); CalcPseudoInverseTryNormal(dinv[i], lh); }
   else
-- 
2.43.0


From 5cf5fd4aec0303d838e1bd7b8cf823104513a37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 02/52] fix: BSmoother2 visits wrong groups in reverse order
 when group numbers are not contiguous

---
 src/base/smoothers/loc_block_gssmoother_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/smoothers/loc_block_gssmoother_impl.hpp b/src/base/smoothers/loc_block_gssmoother_impl.hpp
index 743f438..8f43381 100644
--- a/src/base/smoothers/loc_block_gssmoother_impl.hpp
+++ b/src/base/smoothers/loc_block_gssmoother_impl.hpp
@@ -626,7 +626,7 @@ namespace amg
     {
       if (reverse)
       {
-        int group_num = groups[sg-1]-k;
+        int group_num = groups[sg-1-k];
         int finext = fi_blocks[group_num+1], fifirst = fi_blocks[group_num];
 
         for (int block_num = finext-1; block_num > fifirst; block_num--)
-- 
2.43.0


From 5863646cb9e500782ad991028c63bef53cc24c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 03/52] fix: BSmoother2 zero-initial-guess sweeps use the wrong
 triangle

---
 src/base/smoothers/loc_block_gssmoother_impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/smoothers/loc_block_gssmoother_impl.hpp b/src/base/smoothers/loc_block_gssmoother_impl.hpp
index 8f43381..5c73473 100644
--- a/src/base/smoothers/loc_block_gssmoother_impl.hpp
+++ b/src/base/smoothers/loc_block_gssmoother_impl.hpp
@@ -763,9 +763,9 @@ namespace amg
 	  FlatVector<TV> hb = hymax.Range(0, n);
 	  if (zig) { // zero initial guess - save U/L part of residuum
 	    if (reverse)
-	      { blocks[block_nr].RichardsonUpdate_FW_zig(1.0, hx, fx, hb, fb); }
-	    else
 	      { blocks[block_nr].RichardsonUpdate_BW_zig(1.0, hx, fx, hb, fb); }
+	    else
+	      { blocks[block_nr].RichardsonUpdate_FW_zig(1.0, hx, fx, hb, fb); }
 	  }
 	  else
 	    { blocks[block_nr].RichardsonUpdate(1.0, hx, fx, hb, fb); }
-- 
2.43.0


From 6e524d7affdd971a3c42ed7e94a45a9f89bf975e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 04/52] fix: BSmoother2::SmoothGroups ignores the sweep
 direction

---
 src/base/smoothers/loc_block_gssmoother.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/smoothers/loc_block_gssmoother.cpp b/src/base/smoothers/loc_block_gssmoother.cpp
index 811939a..a59363b 100644
--- a/src/base/smoothers/loc_block_gssmoother.cpp
+++ b/src/base/smoothers/loc_block_gssmoother.cpp
@@ -239,9 +239,9 @@ namespace amg
   {
     RegionTimer rt(SG_thack());
     if (blocks_no)
-      { SmoothNO(groups, x, b, res, steps, res_updated, update_res, x_zero, true, symm); }
+      { SmoothNO(groups, x, b, res, steps, res_updated, update_res, x_zero, reverse, symm); }
     else
-      { SmoothWO(groups, x, b, res, steps, res_updated, update_res, x_zero, true, symm); }
+      { SmoothWO(groups, x, b, res, steps, res_updated, update_res, x_zero, reverse, symm); }
   } // BSmoother2<TM> :: SmoothGroups
 
 
-- 
2.43.0


From 6465facd37f74ece6d8b8a3f3c79feb877f6a6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 05/52] fix: BSmoother2 computes a wrong residual for
 overlapping blocks or uncovered rows

---
 src/base/smoothers/loc_block_gssmoother.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/base/smoothers/loc_block_gssmoother.cpp b/src/base/smoothers/loc_block_gssmoother.cpp
index a59363b..c0e268b 100644
--- a/src/base/smoothers/loc_block_gssmoother.cpp
+++ b/src/base/smoothers/loc_block_gssmoother.cpp
@@ -46,6 +46,10 @@ namespace amg
     //   { throw Exception("New BS parallel TODO!!"); }
 
     const auto & A(*_spmat);
+
+    if (!blocks_no) // blocks can overlap or leave out rows, so A cannot be put together from them
+      { sysmat = _spmat; }
+
     height = A.Height();
     maxbs = 0;
 
@@ -317,6 +321,9 @@ namespace amg
   template<class TM>
   shared_ptr<BaseMatrix> BSmoother2<TM> :: GetAMatrix () const
   {
+    if (sysmat != nullptr)
+      { return sysmat; }
+
     return make_shared<BSmoother2SysMat<TM>>(const_pointer_cast<BSmoother2<TM>>(dynamic_pointer_cast<const BSmoother2<TM>>(shared_from_this())));
   } // BSmoother2::GetAMatrix
 
-- 
2.43.0


From f1b29e45b0e0f0c73d3a72fca78713a2b363b72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 06/52] fix: BSmoother2 non-overlapping mode updates the
 residual with wrong rows and untransposed blocks

---
 src/base/smoothers/loc_block_gssmoother_impl.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/base/smoothers/loc_block_gssmoother_impl.hpp b/src/base/smoothers/loc_block_gssmoother_impl.hpp
index 5c73473..5d65b0b 100644
--- a/src/base/smoothers/loc_block_gssmoother_impl.hpp
+++ b/src/base/smoothers/loc_block_gssmoother_impl.hpp
@@ -326,7 +326,7 @@ namespace amg
     // res -= (D+L^T) x_new
     for (auto k : Range(dofnrs)) {
       for (auto l : Range(firsti[k], firsti[k+1]))
-	{ bigres(cols[l]) -= vals[l] * smallsol[k]; }
+	{ bigres(cols[l]) -= Trans(vals[l]) * smallsol[k]; }
     }
   } // BSBlock::RichardsonUpdate_FW_zig
 
@@ -373,8 +373,8 @@ namespace amg
       { bigres(dnr) = 0.0; }
     // res -= L x_new
     for (auto k : Range(dofnrs)) {
-      for (auto l : Range(firsti[nds], firsti[nds+1]))
-	{ bigres(cols[l]) -= vals[l] * smallsol[k]; }
+      for (auto l : Range(firsti[nds+k], firsti[nds+k+1])) // <- firsti offset for U
+	{ bigres(cols[l]) -= Trans(vals[l]) * smallsol[k]; }
     }
   } // BSBlock::RichardsonUpdate_FW_zig
 
@@ -408,7 +408,7 @@ namespace amg
     // res -= L^T (x_new-x)
     for (auto k : Range(dofnrs)) {
       for (auto l : Range(firsti[k], firsti[k+1]))
-	{ bigres(cols[l]) -= vals[l] * smallsol[k]; }
+	{ bigres(cols[l]) -= Trans(vals[l]) * smallsol[k]; }
     }
   } // BSBlock::RichardsonUpdate_FW_zig
 
@@ -442,7 +442,7 @@ namespace amg
     // res -= U^T (x_new-x)
     for (auto k : Range(dofnrs)) {
       for (auto l : Range(firsti[nds+k], firsti[nds+k+1])) // <- firsti offset for U
-	{ bigres(cols[l]) -= vals[l] * smallsol[k]; }
+	{ bigres(cols[l]) -= Trans(vals[l]) * smallsol[k]; }
     }
   } // BSBlock::RichardsonUpdate_FW_zig
 
@@ -508,7 +508,7 @@ namespace amg
     // res -= U (x_new-x)
     for (auto k : Range(dofnrs))
       for (auto l : Range(firsti[nds+k], firsti[nds+k+1])) // <- firsti offset for U
-	{ bigres(cols[l]) -= vals[l] * smallsol[k]; }
+	{ bigres(cols[l]) -= Trans(vals[l]) * smallsol[k]; }
   } // BSBlock::RichardsonUpdate_FW_zig
 
 
-- 
2.43.0


From e59e264f161af3b39d93d4de0dbba4e607021d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:32 +0000
Subject: [PATCH 07/52] fix: sparse matrix sum uses the values of A for B and
 ignores the factors

---
 src/base/linalg/utils_sparseLA.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/base/linalg/utils_sparseLA.cpp b/src/base/linalg/utils_sparseLA.cpp
index 7cecef3..068fb91 100644
--- a/src/base/linalg/utils_sparseLA.cpp
+++ b/src/base/linalg/utils_sparseLA.cpp
@@ -174,22 +174,22 @@ AddMergeSPM (double const &alpha,
       {
         for (auto j : Range(risA))
         {
-          lam(k, risA[j], rvsA[j]);
+          lam(k, risA[j], alpha * rvsA[j]);
         }
       }
       else if (risA.Size() == 0)
       {
         for (auto j : Range(risB))
         {
-          lam(k, risB[j], rvsB[j]);
+          lam(k, risB[j], beta * rvsB[j]);
         }
       }
       else
       {
         iterate_ABC(risA, risB,
-          [&](auto const &idxA) { lam(k, risA[idxA], rvsA[idxA]); },
-          [&](auto const &idxB) { lam(k, risB[idxB], rvsA[idxB]); },
-          [&](auto const &idxA, auto const &idxB) { lam(k, risA[idxA], rvsA[idxA] + rvsA[idxB]); });
+          [&](auto const &idxA) { lam(k, risA[idxA], alpha * rvsA[idxA]); },
+          [&](auto const &idxB) { lam(k, risB[idxB], beta * rvsB[idxB]); },
+          [&](auto const &idxA, auto const &idxB) { lam(k, risA[idxA], alpha * rvsA[idxA] + beta * rvsB[idxB]); });
       }
     }
   };
-- 
2.43.0


From 5ea5ecb89c8f37056af798a93c8ee4af11a064b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:32 +0000
Subject: [PATCH 08/52] fix: sparse identity has all entries in column 1 and
 full diagonal blocks

---
 src/base/linalg/utils_sparseLA.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/base/linalg/utils_sparseLA.cpp b/src/base/linalg/utils_sparseLA.cpp
index 068fb91..161e549 100644
--- a/src/base/linalg/utils_sparseLA.cpp
+++ b/src/base/linalg/utils_sparseLA.cpp
@@ -836,7 +836,7 @@ EmbedSparseMatrix(shared_ptr<BaseMatrix> A, IntRange r, int const bigH)
 
 template<int BS>
 INLINE
-shared_ptr<stripped_spm_tm<Mat<BS, BS, double>>>
+shared_ptr<stripped_spm<Mat<BS, BS, double>>>
 createSparseIdentityImpl(int H, BitArray const *onRows)
 {
   Array<int> perow(H); perow = 1;
@@ -852,14 +852,14 @@ createSparseIdentityImpl(int H, BitArray const *onRows)
     }
   }
 
-  auto spI = make_shared<stripped_spm_tm<Mat<BS, BS, double>>>(perow, H);
+  auto spI = make_shared<stripped_spm<Mat<BS, BS, double>>>(perow, H);
 
   for (auto k : Range(perow))
   {
     if ( (onRows == nullptr) || (onRows->Test(k) ) )
     {
-      spI->GetRowIndices(k)[0] = 1;
-      spI->GetRowValues(k)[0] = 1.0;
+      spI->GetRowIndices(k)[0] = k;
+      SetIdentity(spI->GetRowValues(k)[0]);
     }
   }
 
-- 
2.43.0


From 7d409222b2857b59e09321a0bb5daa07b5d94374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:32 +0000
Subject: [PATCH 09/52] fix: CompressA drops negative scalar entries

---
 src/base/linalg/utils_sparseLA.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/linalg/utils_sparseLA.cpp b/src/base/linalg/utils_sparseLA.cpp
index 161e549..d898b7c 100644
--- a/src/base/linalg/utils_sparseLA.cpp
+++ b/src/base/linalg/utils_sparseLA.cpp
@@ -963,7 +963,7 @@ template<int N, int M> INLINE double abssum_tm(Mat<N, M, double> const &x)
   return s;
 }
 
-INLINE double abssum_tm(double const &x) { return x; }
+INLINE double abssum_tm(double const &x) { return abs(x); }
 
 template<class TSPM>
 shared_ptr<TSPM>
-- 
2.43.0


From a81e4cfe9d0afe264f03a16b4a8d735013109900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:32 +0000
Subject: [PATCH 10/52] fix: Block2SparseMatrix mixes up rows and columns

---
 src/base/linalg/utils_sparseLA.cpp | 31 +++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/base/linalg/utils_sparseLA.cpp b/src/base/linalg/utils_sparseLA.cpp
index d898b7c..d713d80 100644
--- a/src/base/linalg/utils_sparseLA.cpp
+++ b/src/base/linalg/utils_sparseLA.cpp
@@ -505,7 +505,7 @@ shared_ptr<BaseMatrix> BaseMatrixToSparse (shared_ptr<BaseMatrix> A);
 
 template<int BH, int BW>
 INLINE
-shared_ptr<stripped_spm_tm<Mat<BH, BW, double>>>
+shared_ptr<stripped_spm<Mat<BH, BW, double>>>
 Block2SparseMatrix_impl (BlockMatrix &A)
 {
   typedef stripped_spm_tm<Mat<BH, BW, double>> TSPM;
@@ -559,8 +559,8 @@ Block2SparseMatrix_impl (BlockMatrix &A)
 
   for (auto j : Range(W))
   {
-    rowOff[j] = totalH;
-    totalH += getBlockInCol(j)->Width();
+    colOff[j] = totalW;
+    totalW += getBlockInCol(j)->Width();
   }
 
   auto iterateBlockWise = [&](auto lam)
@@ -591,7 +591,7 @@ Block2SparseMatrix_impl (BlockMatrix &A)
     }
   });
 
-  auto spA = make_shared<stripped_spm_tm<Mat<BH, BW, double>>>(perow, totalW);
+  auto spA = make_shared<stripped_spm<Mat<BH, BW, double>>>(perow, totalW);
 
   perow = 0;
 
@@ -602,15 +602,16 @@ Block2SparseMatrix_impl (BlockMatrix &A)
       auto Akj_ris = Akj.GetRowIndices(kk);
       auto Akj_rvs = Akj.GetRowValues(kk);
 
-      auto ris = spA->GetRowIndices(kk);
-      auto rvs = spA->GetRowValues(kk);
+      int const row = offRow + kk;
+
+      auto ris = spA->GetRowIndices(row);
+      auto rvs = spA->GetRowValues(row);
 
-      for (auto l : Range(ris))
+      for (auto l : Range(Akj_ris))
       {
-        int const row = offRow + kk;
         int const inRow = perow[row]++;
-        ris[inRow] = offCol + Akj_ris[j];
-        rvs[inRow] = Akj_rvs[j];
+        ris[inRow] = offCol + Akj_ris[l];
+        rvs[inRow] = Akj_rvs[l];
       }
     }
   });
@@ -702,8 +703,8 @@ Block2SparseMatrix (BlockMatrix &A)
 
         if (kjPar)
         {
-          rowPds[k] = parAkj->GetRowParallelDofs();
-          colPds[j] = parAkj->GetColParallelDofs();
+          rowPds[j] = parAkj->GetRowParallelDofs();
+          colPds[k] = parAkj->GetColParallelDofs();
         }
 
         if (blockPar == -1)
@@ -760,15 +761,15 @@ Block2SparseMatrix (BlockMatrix &A)
   shared_ptr<ParallelDofs> fusedRowParDOFs = nullptr;
   shared_ptr<ParallelDofs> fusedColParDOFs = nullptr;
 
-  if (blockPar)
+  if (blockPar == 1)
   {
     fusedRowParDOFs = fuseParallelDOFs(rowPds);
     fusedColParDOFs = fuseParallelDOFs(colPds);
   }
 
   return WrapParallelMatrix(singleSparseMat,
-                            UniversalDofs(fusedRowParDOFs, singleSparseMat->Height(), BH),
-                            UniversalDofs(fusedColParDOFs, singleSparseMat->Width(), BW),
+                            UniversalDofs(fusedRowParDOFs, singleSparseMat->Width(), BW),
+                            UniversalDofs(fusedColParDOFs, singleSparseMat->Height(), BH),
                             blockOp);
 }
 
-- 
2.43.0


From 6ca6020e24cee97c7e5ec3ba8c9ac8715d4277bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:22 +0000
Subject: [PATCH 11/52] fix: ordering of integer tuples of length 4 and 5

---
 src/base/utils/utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/utils/utils.hpp b/src/base/utils/utils.hpp
index a91c1dc..eb26057 100644
--- a/src/base/utils/utils.hpp
+++ b/src/base/utils/utils.hpp
@@ -44,7 +44,7 @@ template<typename T> bool operator < (const IVec<3,T> & a, const IVec<3,T> & b)
   else if (a[1]<b[1]) return true; else if (a[1]>b[1]) return false;
   else return a[2]<b[2];
 }
-template<typename T> bool operator < (const IVec<4,T> & a, const IVec<3,T> & b) {
+template<typename T> bool operator < (const IVec<4,T> & a, const IVec<4,T> & b) {
   if (a[0]<b[0]) return true; else if (a[0]>b[0]) return false;
   else if (a[1]<b[1]) return true; else if (a[1]>b[1]) return false;
   else if (a[2]<b[2]) return true; else if (a[2]>b[2]) return false;
@@ -54,7 +54,7 @@ template<typename T> bool operator < (const IVec<5,T> & a, const IVec<5,T> & b)
   if (a[0]<b[0]) return true; else if (a[0]>b[0]) return false;
   else if (a[1]<b[1]) return true; else if (a[1]>b[1]) return false;
   else if (a[2]<b[2]) return true; else if (a[2]>b[2]) return false;
-  else if (a[3]<b[3]) return true; else if (a[2]>b[2]) return false;
+  else if (a[3]<b[3]) return true; else if (a[3]>b[3]) return false;
   else return a[4]<b[4];
 }
 
-- 
2.43.0


From 5a8999423fa215d717c422fe0bdacb59af4f78bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:22 +0000
Subject: [PATCH 12/52] fix: posSortedInSorted loses all matches after an entry
 that is not in b

---
 src/base/utils/utils_arrays_tables.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/base/utils/utils_arrays_tables.hpp b/src/base/utils/utils_arrays_tables.hpp
index 7cc3f2e..27770e9 100644
--- a/src/base/utils/utils_arrays_tables.hpp
+++ b/src/base/utils/utils_arrays_tables.hpp
@@ -365,8 +365,11 @@ FlatArray<T> posSortedInSorted(FlatArray<T> a, FlatArray<T> b, LocalHeap &lh)
   int ia = 0, ib = 0;
   while ( (ia < sa) && (ib < sb) ) {
     if (a[ia] == b[ib])
-      { inds[ia++] = ib; }
-    ib++;
+      { inds[ia++] = ib++; }
+    else if (a[ia] < b[ib])
+      { inds[ia++] = -1; }
+    else
+      { ib++; }
   }
   while (ia < sa)
     { inds[ia++] = -1; }
-- 
2.43.0


From 4da7c7febf815fd963fe27f833bacc48d1017590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:22 +0000
Subject: [PATCH 13/52] fix: SpecOpt copy constructor initialises the default
 value from itself

---
 src/base/utils/SpecOpt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/utils/SpecOpt.hpp b/src/base/utils/SpecOpt.hpp
index 5fe44ed..2890ac4 100644
--- a/src/base/utils/SpecOpt.hpp
+++ b/src/base/utils/SpecOpt.hpp
@@ -23,7 +23,7 @@ public:
   SpecOpt (OC _default_opt) : default_opt(_default_opt), spec_opt(0) { ; }
   SpecOpt (OC _default_opt, Array<OC> & _spec_opt) : default_opt(_default_opt), spec_opt(_spec_opt) { ; }
   SpecOpt (OC _default_opt, Array<OC> _spec_opt) : default_opt(_default_opt), spec_opt(_spec_opt) { ; }
-  SpecOpt (const SpecOpt<OC> & other) : default_opt(default_opt), spec_opt(other.spec_opt) { ; }
+  SpecOpt (const SpecOpt<OC> & other) : default_opt(other.default_opt), spec_opt(other.spec_opt) { ; }
   SpecOpt (SpecOpt<OC> && other) : default_opt(other.default_opt), spec_opt(move(other.spec_opt)) { ; }
   SpecOpt (const Flags & flags, OC defopt, string defkey, FlatArray<string> optkeys, FlatArray<OC> enum_vals)
     : SpecOpt(defopt)
-- 
2.43.0


From ab5bea88fd539dd38ca4071510012fbb0305bc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:22 +0000
Subject: [PATCH 14/52] fix: SpecOpt |= drops special values of levels only the
 other one has

---
 src/base/utils/SpecOpt.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/base/utils/SpecOpt.hpp b/src/base/utils/SpecOpt.hpp
index 2890ac4..e06f349 100644
--- a/src/base/utils/SpecOpt.hpp
+++ b/src/base/utils/SpecOpt.hpp
@@ -65,6 +65,9 @@ public:
 
   SpecOpt<OC> & operator |= (const SpecOpt<OC> & other) {
     if constexpr(std::is_same<OC, bool>::value) {
+      // levels that only the other one has special values for
+      for (auto k : Range(spec_opt.Size(), max2(spec_opt.Size(), other.spec_opt.Size())))
+        { spec_opt.Append(default_opt); }
       default_opt |= other.default_opt;
       for (auto k : Range(min(spec_opt.Size(), other.spec_opt.Size())))
         { spec_opt[k] |= other.spec_opt[k]; }
-- 
2.43.0


From 7ba823c4ecc2d574e9d70a2d34a2b731b484fea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:38 +0000
Subject: [PATCH 15/52] fix: HiptMairSmoother::SmoothBack: the guess is no
 longer zero after the range sweep

---
 src/base/smoothers/base_smoother.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/base/smoothers/base_smoother.cpp b/src/base/smoothers/base_smoother.cpp
index d7a0057..348d937 100644
--- a/src/base/smoothers/base_smoother.cpp
+++ b/src/base/smoothers/base_smoother.cpp
@@ -292,6 +292,8 @@ void HiptMairSmoother :: SmoothBack (BaseVector &x, const BaseVector &b, BaseVec
     RegionTimer rt(tr);
 
     smrange->SmoothBack(x, b, res, resUp, resUp, x_zero);
+
+    xZero = false;
   }
 
   resUp = CalcPotRhs(x, b, res, *rhspot, resUp, xZero, resUp);
-- 
2.43.0


From c1cff39e2f27b1f0ba7ba13b4c0064bb5095710e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:45 +0000
Subject: [PATCH 16/52] fix: EmbeddedAMGMatrix without finest smoother applies
 the selected cycle, not always the V cycle

---
 src/base/solve/amg_matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/solve/amg_matrix.cpp b/src/base/solve/amg_matrix.cpp
index dd6a353..e1417f0 100644
--- a/src/base/solve/amg_matrix.cpp
+++ b/src/base/solve/amg_matrix.cpp
@@ -624,7 +624,7 @@ namespace amg
     }
     else { /** **/
       ds->TransferF2C(&b, cr.get());
-      clm->SmoothV(*cx, *cr);
+      clm->Smooth(*cx, *cr);
       ds->TransferC2F(&x, cx.get());
     }
 
-- 
2.43.0


From 9feec8fbd80957c1bb1ce86a294f27637edbcf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:22 +0000
Subject: [PATCH 17/52] fix: LinearSolver: uninitialised error switches, wrong
 step count, spurious convergence without a tolerance

---
 src/base/solve/LinearSolver.cpp | 4 ++--
 src/base/solve/LinearSolver.hpp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/base/solve/LinearSolver.cpp b/src/base/solve/LinearSolver.cpp
index cbf0e1c..a68b282 100644
--- a/src/base/solve/LinearSolver.cpp
+++ b/src/base/solve/LinearSolver.cpp
@@ -96,11 +96,11 @@ void LinearSolver :: Solve (BaseVector &x, const BaseVector &b, BaseVector &res,
     if (master && print)
       { do_output(); }
 
-    if (check_error)
+    if (check_err)
       { converged = ( curr_err < rtol * init_err ); }
   }
 
-  needed_steps = converged ? (curr_iter + 1) : -1;
+  needed_steps = converged ? curr_iter : -1; // curr_iter is already incremented here
 
 } // LinearSolver::Solve
 
diff --git a/src/base/solve/LinearSolver.hpp b/src/base/solve/LinearSolver.hpp
index a5d5ac3..4c94d95 100644
--- a/src/base/solve/LinearSolver.hpp
+++ b/src/base/solve/LinearSolver.hpp
@@ -37,10 +37,10 @@ protected:
   shared_ptr<BaseMatrix> A;
 
   int max_steps;    // max. number of steps to do on this level
-  bool check_error; // do we even check for error
+  bool check_error = true; // do we even check for error
   double rtol;      // (relative) error tolerance
   bool print;       // write output
-  bool save_errs;   // do we save the errors
+  bool save_errs = false; // do we save the errors
   string prefix;    // output prefix to make it more readable
 
   double init_err;  // initial error
@@ -49,8 +49,8 @@ protected:
 
   shared_ptr<BaseVector> work_res, work_x;
 
-  bool converged;
-  int needed_steps;
+  bool converged = false;
+  int needed_steps = -1;
   Array<double> errors;
 
 public:
-- 
2.43.0


From 9ec23660c42817d8e8bc7ffb8141b2ac0c5e25ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:09 +0000
Subject: [PATCH 18/52] fix: MinGEV returns (and destroys) the spectrum of D
 instead of the generalized eigenvalue

---
 src/base/coarsening/agglomerator_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/coarsening/agglomerator_utils.hpp b/src/base/coarsening/agglomerator_utils.hpp
index fd0dd73..246fec0 100644
--- a/src/base/coarsening/agglomerator_utils.hpp
+++ b/src/base/coarsening/agglomerator_utils.hpp
@@ -96,7 +96,7 @@ MinGEV (FlatMatrix<TSCAL>        E,
   PEP = evecsD.Rows(firstNZ, N) * EP;
 
   FlatVector<TSCAL> lamsPEP(numNZero, lh);
-  LapackEigenValuesSymmetricLH(lh, D, lamsPEP);
+  LapackEigenValuesSymmetricLH(lh, PEP, lamsPEP);
 
   return lamsPEP(0);
 } // MinGEV
-- 
2.43.0


From 05894d8392c67c7326321a85c9da48bef79e84ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:09 +0000
Subject: [PATCH 19/52] fix: PairStabilityCheckWInv checks E Cinv E - rho E
 instead of Cinv E Cinv - rho Cinv

---
 src/base/coarsening/agglomerator_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/coarsening/agglomerator_utils.hpp b/src/base/coarsening/agglomerator_utils.hpp
index 246fec0..8694a6c 100644
--- a/src/base/coarsening/agglomerator_utils.hpp
+++ b/src/base/coarsening/agglomerator_utils.hpp
@@ -557,7 +557,7 @@ PairStabilityCheckWInv (TWEIGHT    const &rho,
 
   FlatMatrix<T> M(N, N, lh);
 
-  M = E * CinvE - rho * E;
+  M = CinvE * Cinv - rho * Cinv;
 
   return CheckForSSPD(M, lh);
 } // PairStabilityCheckWInv
-- 
2.43.0


From eff36c7218ea609991ba051eb9130f143f26c371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:09 +0000
Subject: [PATCH 20/52] fix: default tolerances of the block
 CalcPseudoInverseWithTol

---
 src/base/utils/utils_denseLA.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/utils/utils_denseLA.hpp b/src/base/utils/utils_denseLA.hpp
index abfd819..1cfa192 100644
--- a/src/base/utils/utils_denseLA.hpp
+++ b/src/base/utils/utils_denseLA.hpp
@@ -1061,7 +1061,7 @@ ToTM (FlatMatrix<double> A, Mat<N, N, double> &B)
 
 template<int N>
 INLINE void
-CalcPseudoInverseWithTol (FlatMatrix<Mat<N, N, double>> mat, LocalHeap & lh, double relTolR = 12-12, double relTolZ = 12-12)
+CalcPseudoInverseWithTol (FlatMatrix<Mat<N, N, double>> mat, LocalHeap & lh, double relTolR = 1e-12, double relTolZ = 1e-12)
 {
   auto const H = mat.Height();
   auto const W = mat.Width();
-- 
2.43.0


From 1712cfaab777cf9515d57bfb8261c4c82f65349c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:09 +0000
Subject: [PATCH 21/52] fix: AddTripleProd (scalar) loses its result,
 Add_AT_B_A ignores the factor

---
 src/base/utils/utils_denseLA.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/utils/utils_denseLA.hpp b/src/base/utils/utils_denseLA.hpp
index 1cfa192..8336f3e 100644
--- a/src/base/utils/utils_denseLA.hpp
+++ b/src/base/utils/utils_denseLA.hpp
@@ -626,7 +626,7 @@ INLINE void AddTripleProd (double fac, Mat<N,N,double> & out, const Mat<N,N,doub
   X = B * C;
   out += fac * A * X;
 }
-INLINE void AddTripleProd (double fac, double out, double A, double B, double C)
+INLINE void AddTripleProd (double fac, double & out, double A, double B, double C)
 { out += fac * A * B * C; }
 
 
@@ -645,7 +645,7 @@ INLINE void Add_AT_B_A (double fac, Mat<N,N,double> & out, const Mat<N,N,double>
 {
   static Mat<N,N,double> X;
   X = B * A;
-  out += Trans(A) * X;
+  out += fac * Trans(A) * X;
 }
 
 INLINE void Add_AT_B_A (double fac, double & out, double A, double B)
-- 
2.43.0


From a7592d6cfd074e686b61a508cd64050120841dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:09 +0000
Subject: [PATCH 22/52] fix: CheckForSSPD accepts every matrix without positive
 diagonal entries

---
 src/base/utils/utils_denseLA.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/base/utils/utils_denseLA.cpp b/src/base/utils/utils_denseLA.cpp
index 37e85dc..dde3bd1 100644
--- a/src/base/utils/utils_denseLA.cpp
+++ b/src/base/utils/utils_denseLA.cpp
@@ -125,10 +125,16 @@ bool CheckForSSPD (FlatMatrix<TSCAL> A, LocalHeap &lh)
 
   if (info == 0)
     { return true; }
-  else if (rank == 0) // zero matrix is SSPD...
-    { return true; }
   else if (info < 0) // something went horribly wrong - should probably throw an exception...
     { return false; }
+  else if (rank == 0) // no positive diagonal entry - only the zero matrix is SSPD
+  {
+    for (auto k : Range(n))
+      for (auto j : Range(n))
+        if (abs(A2(k, j)) > tol)
+          { return false; }
+    return true;
+  }
 
 
   /**
-- 
2.43.0


From c54d0e985a0591b6c723f6da56bed281c5fcb7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:09 +0000
Subject: [PATCH 23/52] fix: direct inverse divides by a zero pivot if no
 diagonal entry is positive

---
 src/base/utils/utils_denseLA.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/utils/utils_denseLA.cpp b/src/base/utils/utils_denseLA.cpp
index dde3bd1..6a5f847 100644
--- a/src/base/utils/utils_denseLA.cpp
+++ b/src/base/utils/utils_denseLA.cpp
@@ -306,7 +306,7 @@ CPI_TN (FlatMatrix<TSCAL> A, LocalHeap &lh)
     // if ( (maxval < 1e-20*rest) || (rest < eps) )
       // { isok = false; break; }
 
-    if ( maxval < max( AbsZeroTol<TSCAL>() * rest, eps) )
+    if ( maxval <= max( AbsZeroTol<TSCAL>() * rest, eps) )
       { isok = false; break; }
 
     // exchange rows
@@ -504,7 +504,7 @@ TryDirectInverse_simple (FlatMatrix<TSCAL> A, LocalHeap & lh)
     // if ( (maxval < 1e-20*rest) || (rest < eps) )
       // { isok = false; break; }
 
-    if ( maxval < max( AbsZeroTol<TSCAL>() * rest, eps) )
+    if ( maxval <= max( AbsZeroTol<TSCAL>() * rest, eps) )
       { isok = false; break; }
 
     // exchange rows
-- 
2.43.0


From 00a60373127a2dfce721408ee4f33483776958e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:25 +0000
Subject: [PATCH 24/52] fix: EpsEpsEnergy: last diagonal entry of T R T^T in 3D

---
 src/elasticity/elasticity_energy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elasticity/elasticity_energy.hpp b/src/elasticity/elasticity_energy.hpp
index 0d5154d..b293e07 100644
--- a/src/elasticity/elasticity_energy.hpp
+++ b/src/elasticity/elasticity_energy.hpp
@@ -421,7 +421,7 @@ public:
           // third column
           T_M_TT(0, 2) = T_M_TT(2, 0);
           T_M_TT(1, 2) = T_M_TT(2, 1);
-          T_M_TT(0, 2) = t(1) * T_M(1, 0) - t(0) * T_M(2, 1);
+          T_M_TT(2, 2) = t(1) * T_M(2, 0) - t(0) * T_M(2, 1);
         }
       }
 
-- 
2.43.0


From 2ac4694186de81c454fdff1632d9175b4e7fd7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:25 +0000
Subject: [PATCH 25/52] fix: EpsEpsEnergy::SetQtMQ: scale of the mixed term

---
 src/elasticity/elasticity_energy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elasticity/elasticity_energy.hpp b/src/elasticity/elasticity_energy.hpp
index b293e07..5c2d109 100644
--- a/src/elasticity/elasticity_energy.hpp
+++ b/src/elasticity/elasticity_energy.hpp
@@ -897,7 +897,7 @@ public:
     MakeFlatMat<0, DISPPV, 0, DISPPV>(aA) = val * A;
     MakeFlatMat<0, DISPPV, DISPPV, ROTPV>(aA) = val * AQpB;
     MakeFlatMat<DISPPV, ROTPV, 0, DISPPV>(aA) = val * Trans(AQpB);
-    MakeFlatMat<DISPPV, ROTPV, DISPPV, ROTPV>(aA) = val * (Trans(Q) * AQpB + BT * Q + (sqr(s)*D) );
+    MakeFlatMat<DISPPV, ROTPV, DISPPV, ROTPV>(aA) = val * (Trans(Q) * AQpB + (s*BT) * Q + (sqr(s)*D) );
   }
 
 
-- 
2.43.0


From 2b6e1e8e215dde5c126fcd974bcc896662a46f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:25 +0000
Subject: [PATCH 26/52] fix: EpsEpsEnergy::TQ::SetQ: apply the factor to the
 off-diagonal block

---
 src/elasticity/elasticity_energy.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/elasticity/elasticity_energy.hpp b/src/elasticity/elasticity_energy.hpp
index 5c2d109..798f5dd 100644
--- a/src/elasticity/elasticity_energy.hpp
+++ b/src/elasticity/elasticity_energy.hpp
@@ -473,7 +473,8 @@ public:
 
       // T
       FlatMat<0, DISPPV, DISPPV, ROTPV,  TMU> T(E); // A and C
-      TT::SetSkT(tang, T);
+      Vec<DIM, double> alpha_tang = alpha * tang;
+      TT::SetSkT(alpha_tang, T);
 
       // r*I
       FlatMat<DISPPV, ROTPV, DISPPV, ROTPV,  TMU> RI(E); // A and C
-- 
2.43.0


From 76f03592645763ccebbacb026df88184b7a212a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:25 +0000
Subject: [PATCH 27/52] fix: ElastVData: buffer size must hold the full weight
 matrix

---
 src/elasticity/elasticity_mesh.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elasticity/elasticity_mesh.hpp b/src/elasticity/elasticity_mesh.hpp
index c9ebf08..0996d8b 100644
--- a/src/elasticity/elasticity_mesh.hpp
+++ b/src/elasticity/elasticity_mesh.hpp
@@ -22,7 +22,7 @@ class ElastVData
 public:
   using TM = typename ETM_TRAIT<DIM>::type;
 
-  static constexpr int DOUBLE_BUFFER_SIZE = 1 + SIZE_IN_BUFFER<Vec<DIM,double>>() + SIZE_IN_BUFFER<Mat<DIM,DIM,double>>();
+  static constexpr int DOUBLE_BUFFER_SIZE = 1 + SIZE_IN_BUFFER<Vec<DIM,double>>() + SIZE_IN_BUFFER<TM>();
 
   Vec<DIM, double> pos;
   TM wt;
-- 
2.43.0


From bd9c69ef9119417d48c32f84ef07f78164434371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:25 +0000
Subject: [PATCH 28/52] fix: H1Energy::TQ::SetQ: set the identity for
 multi-component entries

---
 src/h1/h1_energy.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/h1/h1_energy.hpp b/src/h1/h1_energy.hpp
index f86f4cc..c302c37 100644
--- a/src/h1/h1_energy.hpp
+++ b/src/h1/h1_energy.hpp
@@ -101,14 +101,14 @@ public:
     INLINE void
     SetQ(TSCAL &E) const
     {
-      E = TSCAL(1.0);
+      SetIdentity(E);
     }
 
     template<class TSCAL>
     INLINE void
     SetQ(double const &alpha, TSCAL &E) const
     {
-      E = TSCAL(alpha);
+      SetScalIdentity(alpha, E);
     }
   };
 
-- 
2.43.0


From be7ac73365a23756fb7ba4e7f6a45138247b5e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:05 +0000
Subject: [PATCH 29/52] fix: StokesEnergy::GetEMatrix: no division by zero for
 half-edges without energy

---
 src/stokes/common/stokes_energy.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/stokes/common/stokes_energy.hpp b/src/stokes/common/stokes_energy.hpp
index 43db5a8..123bcbc 100644
--- a/src/stokes/common/stokes_energy.hpp
+++ b/src/stokes/common/stokes_energy.hpp
@@ -50,11 +50,14 @@ public:
     static TM emi, emj;
     emi = ENERGY::GetEMatrix(ed.edi);
     double tri = calc_trace(emi) / DPV;
-    emi /= tri;
     emj = ENERGY::GetEMatrix(ed.edj);
     double trj = calc_trace(emj) / DPV;
+    // no connection if one of the half-edges has no energy
+    if ( !( (tri > 0) && (trj > 0) ) )
+      { return TM(0.0); }
+    emi /= tri;
     emj /= trj;
-    double f = ( (tri > 0) && (trj > 0) ) ? ( 2 * tri * trj / (tri + trj) ) : 0;
+    double f = 2 * tri * trj / (tri + trj);
     return f * (emi + emj);
   }
 
-- 
2.43.0


From 8d9ea9713e47fc60e6581389dd823bc1f5986a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:49 +0000
Subject: [PATCH 30/52] fix: EpsEpsEnergy: sign of T M in 3D

---
 src/elasticity/elasticity_energy.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/elasticity/elasticity_energy.hpp b/src/elasticity/elasticity_energy.hpp
index 798f5dd..b80a0ce 100644
--- a/src/elasticity/elasticity_energy.hpp
+++ b/src/elasticity/elasticity_energy.hpp
@@ -319,17 +319,17 @@ public:
 
           Iterate<N>([&](auto l)
           {
-            T_M(0, l) = t(1) * M(2, l) - t(2) * M(1, l);
+            T_M(0, l) = t(2) * M(1, l) - t(1) * M(2, l);
           });
 
           Iterate<N>([&](auto l)
           {
-            T_M(1, l) = t(2) * M(0, l) - t(0) * M(2, l);
+            T_M(1, l) = t(0) * M(2, l) - t(2) * M(0, l);
           });
 
           Iterate<N>([&](auto l)
           {
-            T_M(2, l) = t(0) * M(1, l) - t(1) * M(0, l);
+            T_M(2, l) = t(1) * M(0, l) - t(0) * M(1, l);
           });
         }
 
-- 
2.43.0


From 1b9beac4e621a6b70da960f00f098e9f8d1f446c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:55 +0000
Subject: [PATCH 31/52] fix: FlatMat: linear index runs through rows of width W

---
 src/base/utils/utils_denseLA.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/utils/utils_denseLA.hpp b/src/base/utils/utils_denseLA.hpp
index 8336f3e..44e5a96 100644
--- a/src/base/utils/utils_denseLA.hpp
+++ b/src/base/utils/utils_denseLA.hpp
@@ -431,10 +431,10 @@ public:
   }
 
   INLINE TELEM & operator() (size_t i, size_t j) { return basemat(IMIN + i, JMIN + j); }
-  INLINE TELEM & operator() (size_t i) { return (*this)(i/H, i%H); }
+  INLINE TELEM & operator() (size_t i) { return (*this)(i/W, i%W); }
 
   INLINE const TELEM & operator() (size_t i, size_t j) const { return basemat(IMIN + i, JMIN + j); }
-  INLINE const TELEM & operator() (size_t i) const { return (*this)(i/H, i%H); }
+  INLINE const TELEM & operator() (size_t i) const { return (*this)(i/W, i%W); }
 
   static constexpr size_t Height () { return H; }
   static constexpr size_t Width  () { return W; }
-- 
2.43.0


From 275215f4f46fe58ca4d3bcd7f0ae475eb342097b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:32 +0000
Subject: [PATCH 32/52] fix: EpsEpsEnergy: shape of Q^T A in CalcQTM and AddQTM

---
 src/elasticity/elasticity_energy.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elasticity/elasticity_energy.hpp b/src/elasticity/elasticity_energy.hpp
index b80a0ce..206bb26 100644
--- a/src/elasticity/elasticity_energy.hpp
+++ b/src/elasticity/elasticity_energy.hpp
@@ -959,7 +959,7 @@ public:
   {
     /** I   0    A  B   =     A        B
         QT s*I   BT C   =  QTA+s*BT QTB+s*C **/
-    static Mat<DISPPV, ROTPV, double> QTA;
+    static Mat<ROTPV, DISPPV, double> QTA;
     static Mat<ROTPV, ROTPV, double> QTB;
     const double s = Q(DISPPV, DISPPV);
     QTA = Trans(MakeFlatMat<0, DISPPV, DISPPV, ROTPV>(Q)) * MakeFlatMat<0, DISPPV, 0, DISPPV>(M);
@@ -974,7 +974,7 @@ public:
   {
     /** I  0   A  B   =    A      B
         QT I   BT C   =  QTA+BT QTB+C **/
-    static Mat<DISPPV, ROTPV, double> QTA;
+    static Mat<ROTPV, DISPPV, double> QTA;
     static Mat<ROTPV, ROTPV, double> QTB;
     const double s = Q(DISPPV, DISPPV);
     QTA = Trans(MakeFlatMat<0, DISPPV, DISPPV, ROTPV>(Q)) * MakeFlatMat<0, DISPPV, 0, DISPPV>(M);
-- 
2.43.0


From 94479bd2015cfb9246d18d91962a9e71384cabff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:03 +0000
Subject: [PATCH 33/52] fix: EQCHierarchy from member lists broadcasts the size
 on rank zero instead of a mismatched scatter

---
 src/base/distributed/eqchierarchy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/distributed/eqchierarchy.cpp b/src/base/distributed/eqchierarchy.cpp
index 2039a00..fd888c9 100644
--- a/src/base/distributed/eqchierarchy.cpp
+++ b/src/base/distributed/eqchierarchy.cpp
@@ -335,7 +335,7 @@ EQCHierarchy :: EQCHierarchy ()
         numOnRankZero = GetNEQCS();
       }
 
-      comm.Scatter(numOnRankZero);
+      comm.NgMPI_Comm::Bcast(numOnRankZero, 0);
 
       _isRankZeroIdle = numOnRankZero == 0;
     }
-- 
2.43.0


From e50bba5bc2d074eff6dd34329ce08789ebf8c419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:03 +0000
Subject: [PATCH 34/52] fix: NgsAMG_Comm::Bcast of a table without rows, Gather
 without valid communicator returns the value

---
 src/base/distributed/mpiwrap_extension.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/base/distributed/mpiwrap_extension.hpp b/src/base/distributed/mpiwrap_extension.hpp
index cf87fa6..3e8ca4d 100644
--- a/src/base/distributed/mpiwrap_extension.hpp
+++ b/src/base/distributed/mpiwrap_extension.hpp
@@ -113,7 +113,9 @@ public:
     NgMPI_Comm::Bcast(ss, root);
     if (Rank() != root) {
 Array<int> perow(ss[0]);
-perow = 0; perow.Last() = ss[1];
+perow = 0;
+if (ss[0] > 0)
+  { perow.Last() = ss[1]; }
 tab = Table<T>(perow);
     }
     if (ss[1]>0) {
@@ -211,7 +213,7 @@ public:
   {
 #ifdef PARALLEL
     if (!valid_comm) {
-      val = mem[0];
+      mem[0] = val;
     }
     else{
       if ((Rank() == root) && (mem.Size() < Size()) )
-- 
2.43.0


From e7398f246b78e8196fc32c073c7fb5ec636edd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:54 +0000
Subject: [PATCH 35/52] fix: DCCMap does not add a stale receive buffer when
 concentrating a cumulated vector

---
 src/base/linalg/dcc_map.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/base/linalg/dcc_map.cpp b/src/base/linalg/dcc_map.cpp
index bb46e3a..f971d65 100644
--- a/src/base/linalg/dcc_map.cpp
+++ b/src/base/linalg/dcc_map.cpp
@@ -84,8 +84,9 @@ StartDIS2CO (BaseVector & vec) const
   // tauNTC("");
 #endif
   BufferG(vec);
-  if (vec.GetParallelStatus() != DISTRIBUTED) // just nulling-out entries is enough
-    { vec.SetParallelStatus(DISTRIBUTED); return; }
+  // just nulling-out entries is enough, ApplyDIS2CO then sets the status (and must not add anything)
+  if (vec.GetParallelStatus() != DISTRIBUTED)
+    { return; }
   auto ex_dofs = pardofs->GetDistantProcs();
   auto comm = pardofs->GetCommunicator();
   if (g_send.Size())
-- 
2.43.0


From 52f3f3e2ff0b6817247e4d1178a2122274cde4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:12 +0000
Subject: [PATCH 36/52] fix: hybrid smoothers distribute the residual before
 updating it

---
 src/base/smoothers/hybrid_base_smoother.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/base/smoothers/hybrid_base_smoother.cpp b/src/base/smoothers/hybrid_base_smoother.cpp
index ad87541..5e0ddc6 100644
--- a/src/base/smoothers/hybrid_base_smoother.cpp
+++ b/src/base/smoothers/hybrid_base_smoother.cpp
@@ -319,7 +319,8 @@ SmoothImplRES (BaseVector       &x,
 
   // most of the time status is correct here and this is a noop
   x.Cumulate();
-  // res.Distribute(); // no! can use it if cumulated (so basically never)
+  // the residual update below adds up contributions from different ranks
+  res.Distribute();
 
   gx.SetParallelStatus(DISTRIBUTED);
 
-- 
2.43.0


From 857fa02888eae23f4a957411c0018711a1a064d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:12 +0000
Subject: [PATCH 37/52] fix: HybridGSSmoother and HybridDISmoother pass number
 of local steps and overlap in the right order

---
 src/base/smoothers/gssmoother.cpp      | 2 +-
 src/base/smoothers/hybrid_smoother.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/smoothers/gssmoother.cpp b/src/base/smoothers/gssmoother.cpp
index e724b44..e0185d9 100644
--- a/src/base/smoothers/gssmoother.cpp
+++ b/src/base/smoothers/gssmoother.cpp
@@ -609,7 +609,7 @@ HybridGSSmoother (shared_ptr<BaseMatrix> _A,
                   bool _in_thread,
                   bool _symm_loc,
                   int _nsteps_loc)
-  : HybridSmoother<TM>(_A, _overlap, _in_thread, _nsteps_loc)
+  : HybridSmoother<TM>(_A, _nsteps_loc, _in_thread, _overlap)
   , subset(_subset)
   , pinv(_pinv)
   , symm_loc(_symm_loc)
diff --git a/src/base/smoothers/hybrid_smoother.cpp b/src/base/smoothers/hybrid_smoother.cpp
index 1b9cc4b..ceb1b0c 100644
--- a/src/base/smoothers/hybrid_smoother.cpp
+++ b/src/base/smoothers/hybrid_smoother.cpp
@@ -236,7 +236,7 @@ HybridDISmoother (shared_ptr<BaseMatrix> _A,
                   shared_ptr<BitArray> _freedofs,
                   bool overlap,
                   bool NG_MPI_thread)
-  : HybridSmoother<TM>(_A, overlap, NG_MPI_thread, 1)
+  : HybridSmoother<TM>(_A, 1, NG_MPI_thread, overlap)
 {
   Array<TM> mod_diag = this->CalcModDiag(nullptr);
 
-- 
2.43.0


From 1a5365c68cc26e2cfa71c582205a051146303971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:42 +0000
Subject: [PATCH 38/52] fix: AuxSProlMap distributes the prolongation also on
 two ranks

---
 src/base/factory/vertex_factory_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/factory/vertex_factory_impl.hpp b/src/base/factory/vertex_factory_impl.hpp
index 5723141..127b6ed 100644
--- a/src/base/factory/vertex_factory_impl.hpp
+++ b/src/base/factory/vertex_factory_impl.hpp
@@ -2688,7 +2688,7 @@ for (auto l : Range(une)) {
 
   /** Now, unfortunately, we have to distribute matrix entries of sprol. We cannot do this for RM.
 (we are also using more local fine edges that map to less local coarse edges) **/
-  if (eqc_h.GetCommunicator().Size() > 2) {
+  if (eqc_h.GetCommunicator().Size() > 1) {
     // cout << endl << "un-cumualted sprol: " << endl;
     // print_tm_spmat(cout, *sprol); cout << endl;
     const auto & SP = *sprol;
-- 
2.43.0


From 79972f9281a0c723c257e0cf8076547ff7b5e1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:56 +0000
Subject: [PATCH 39/52] fix: elastic connections to the ground are moved to the
 position of the coarse vertex

---
 src/elasticity/elasticity_impl.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/elasticity/elasticity_impl.hpp b/src/elasticity/elasticity_impl.hpp
index 8b01407..fa38d8a 100644
--- a/src/elasticity/elasticity_impl.hpp
+++ b/src/elasticity/elasticity_impl.hpp
@@ -66,7 +66,10 @@ void AttachedEED<DIM> :: map_data (const BaseCoarseMap & cmap, AttachedEED<DIM>
         int l = (cvs[0] == -1) ? 1 : 0;
         int cvnr = v_map[fedge.v[l]];
         ElasticityAMGFactory<DIM>::ENERGY::CalcQij(fvd[fedge.v[l]], fvd[fedge.v[1-l]], QHh); // from [l] to [1-l] should be correct
-        ElasticityAMGFactory<DIM>::ENERGY::AddQtMQ(1.0, add_cvw[cvnr], QHh, fed[fedge.id]);
+        FMQ = fed[fedge.id] * QHh;
+        TM fvw = Trans(QHh) * FMQ; // weight in the fine vertex
+        ElasticityAMGFactory<DIM>::ENERGY::CalcQHh(cvd[cvnr], fvd[fedge.v[l]], QHh); // coarse vertex to fine vertex
+        ElasticityAMGFactory<DIM>::ENERGY::AddQtMQ(1.0, add_cvw[cvnr], QHh, fvw);
       }
     }
   }, true); // master only
-- 
2.43.0


From 9f2369a99f3f0eb90ea3d72128d269d7246fb0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:57 +0000
Subject: [PATCH 40/52] fix: elastic vertex weights of agglomerates whose first
 vertex is not the centre

---
 src/elasticity/elasticity_impl.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/elasticity/elasticity_impl.hpp b/src/elasticity/elasticity_impl.hpp
index fa38d8a..a51def1 100644
--- a/src/elasticity/elasticity_impl.hpp
+++ b/src/elasticity/elasticity_impl.hpp
@@ -120,7 +120,6 @@ INLINE void AttachedEVD<DIM> :: map_data (const AgglomerateCoarseMap<TMESH> & cm
   auto vmap = cmap.template GetMap<NT_VERTEX>();
   const auto & M = *mesh;
   const auto & CM = static_cast<BlockTM&>(*cmap.GetMappedMesh()); // okay, kinda hacky, the coarse mesh already exists, but only as BlockTM i think
-  const auto & ctrs = *cmap.GetAggCenter();
   typename ElasticityAMGFactory<DIM>::ENERGY::TM Q;
   
   auto aggs = cmap.template GetMapC2F<NT_VERTEX>();
@@ -179,9 +178,9 @@ INLINE void AttachedEVD<DIM> :: map_data (const AgglomerateCoarseMap<TMESH> & cm
 
   M.template ApplyEQ<NT_VERTEX> ([&](auto eqc, auto v) LAMBDA_INLINE
   {
-    /** add l2 weights for non ctrs - I already need crs pos here **/
+    /** add l2 weights for all but the vertex the coarse vertex was set from - I already need crs pos here **/
     auto cv = vmap[v];
-    if ( ( cv != -1 ) && ( !ctrs.Test(v) ) )
+    if ( ( cv != -1 ) && ( aggs[cv][0] != v ) )
     {
       ElasticityAMGFactory<DIM>::ENERGY::CalcQHh(cdata[cv], data[v], Q);
       ElasticityAMGFactory<DIM>::ENERGY::AddQtMQ(1.0, cdata[cv].wt, Q, data[v].wt);
-- 
2.43.0


From 69138d2121e22cbb38945c3bf647e246d067a30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:52 +0000
Subject: [PATCH 41/52] fix: distributed edge data is counted once per group
 when a mesh is contracted

---
 src/base/coarsening/grid_contract.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/base/coarsening/grid_contract.hpp b/src/base/coarsening/grid_contract.hpp
index c3de741..be01c9b 100644
--- a/src/base/coarsening/grid_contract.hpp
+++ b/src/base/coarsening/grid_contract.hpp
@@ -181,7 +181,6 @@ public:
     }
     it_vals(maps[0], data); // LOC DATA
     
-    // annoy data is not scattered correctly now for edge-based data!!
     auto & anodes = annoy_nodes[NT];
 
     // cout << "1, contr data: " << endl << "___" << endl;
@@ -239,9 +238,17 @@ public:
       return out;
     });
 
+    // the reduced values are known to every rank of the EQC, so for DISTRIBUTED data
+    // only the master of the EQC keeps them
     for(auto k:Range(cneqcs)) {
+      bool const keepVals = (stat == CUMULATED) || c_eqc_h->IsMasterOfEQC(k);
       for(auto j:Range(anodes[k].Size()))
-        { out[anodes[k][j]] = radata[k][j]; }
+      {
+        if (keepVals)
+          { out[anodes[k][j]] = radata[k][j]; }
+        else
+          { out[anodes[k][j]] = T(0); }
+      }
     }
 
     // cout << "2, contr data: " << endl << "___" << endl;
-- 
2.43.0


From a24741038ca7dd5192c9d231257b82c60fbb0d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:31 +0000
Subject: [PATCH 42/52] fix: SPW keeps vertex classes on ranks without shared
 classes

---
 src/base/coarsening/spw_agg_impl.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/base/coarsening/spw_agg_impl.hpp b/src/base/coarsening/spw_agg_impl.hpp
index 5ead0f1..840b6a5 100644
--- a/src/base/coarsening/spw_agg_impl.hpp
+++ b/src/base/coarsening/spw_agg_impl.hpp
@@ -72,13 +72,14 @@ public:
       // we are the first map - construct cv_to_eqc. for other maps, concatenate it!
       auto vMap = GetMap<NT_VERTEX>();
 
-      if ( eqc_h->GetNEQCS() > 1 )
+      // needed on every rank, also on those without any shared class
+      if ( eqc_h->IsTrulyParallel() )
       {
         cv_to_eqc.SetSize(GetMappedNN<NT_VERTEX>());
         cv_to_eqc = 0;
 
         // works as long as we only go up/down in hierarchy
-        pbtm->template ApplyEQ<NT_VERTEX>(Range(1ul, eqc_h->GetNEQCS()), [&](auto eqc, auto fVNr)
+        pbtm->template ApplyEQ<NT_VERTEX>(Range(1ul, max(size_t(1), eqc_h->GetNEQCS())), [&](auto eqc, auto fVNr)
         {
           auto cVNr = vMap[fVNr];
 
-- 
2.43.0


From e6a9640ebc764cafd381996a04095a552ef35125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:40 +0000
Subject: [PATCH 43/52] fix: MIS does not put a Dirichlet vertex into an
 agglomerate because of a hanging neighbour

---
 src/base/coarsening/mis_agg_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/coarsening/mis_agg_impl.hpp b/src/base/coarsening/mis_agg_impl.hpp
index 5df1e3c..b47e518 100644
--- a/src/base/coarsening/mis_agg_impl.hpp
+++ b/src/base/coarsening/mis_agg_impl.hpp
@@ -758,7 +758,7 @@ INLINE void MISAgglomerator<ENERGY, TMESH, ROBUST> :: FormAgglomerates_impl (Arr
         } else { // neib is not in an agg - force start a new one at neib and add this vertex (which must be OK!)
           auto N_eqc = M.template GetEQCOfNode<NT_VERTEX>(N);
           // if ( (eqc_h.IsMasterOfEQC(N_eqc)) && (eqa_to_eqb(eqc, N_eqc) ) ) { // only if it is OK eqc-wise
-          if ( is_mine(N) && eqa_to_eqb(eqc, N_eqc) ) { // have to check if neib is active!
+          if ( (!marked.Test(N)) && is_mine(N) && eqa_to_eqb(eqc, N_eqc) ) { // have to check if neib is active (not Dirichlet, not in a fixed agg)!
             init_agglomerate(N, N_eqc, true); // have to force new agg even if we dont really want to ...
             auto new_agg_id = v_to_agg[N];
             if (!marked.Test(v)) { // might already have been added by init_agg, but probably not
-- 
2.43.0


From 3353809d9f474f44417e9f4610d8554818b7f8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:56 +0000
Subject: [PATCH 44/52] fix: SPW orphans only join agglomerates whose class,
 including earlier orphans, is comparable

---
 src/base/coarsening/spw_agg_impl.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/base/coarsening/spw_agg_impl.hpp b/src/base/coarsening/spw_agg_impl.hpp
index 840b6a5..bf9223d 100644
--- a/src/base/coarsening/spw_agg_impl.hpp
+++ b/src/base/coarsening/spw_agg_impl.hpp
@@ -1277,6 +1277,9 @@ JoiningIteration (AGG_DATA       const &aggData,
 
   BitArray isJoinable(isAggregated);
 
+  // classes of the aggs, these can grow when orphans join
+  Array<int> aggEQ(v2eq);
+
   // int numJoined = 0;
   int NCV = 0;
 
@@ -1309,6 +1312,9 @@ JoiningIteration (AGG_DATA       const &aggData,
         {
           // found an agg to join
           vmap[v] = vmap[agg];
+
+          if ( eqc_h.IsTrulyParallel() && eqc_h.IsLEQ(aggEQ[agg], aggEQ[v]) )
+            { aggEQ[agg] = aggEQ[v]; }
         }
         else
         {
@@ -1338,7 +1344,7 @@ JoiningIteration (AGG_DATA       const &aggData,
                   return false;
                 }
 
-                auto const eqNeib = v2eq[neib];
+                auto const eqNeib = aggEQ[neib];
 
                 return eqc_h.IsMasterOfEQC(eqNeib) &&
                        ( eqc_h.IsLEQ(eqV, eqNeib) || eqc_h.IsLEQ(eqNeib, eqV) );
-- 
2.43.0


From 9c5b8d63cf9f47879bd3009d93ad8fa614b649a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:52 +0000
Subject: [PATCH 45/52] fix: SPW compares initialised off-process weights of
 vertices of other ranks

---
 src/base/coarsening/agglomerator_impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/coarsening/agglomerator_impl.hpp b/src/base/coarsening/agglomerator_impl.hpp
index 52a8d65..42fdad0 100644
--- a/src/base/coarsening/agglomerator_impl.hpp
+++ b/src/base/coarsening/agglomerator_impl.hpp
@@ -174,7 +174,7 @@ InitializeAggData(AgglomerationData<TMESH, ENERGY, TMU, TWEIGHT> &aggData)
     FM.template Apply<NT_VERTEX>([&](auto vi)
     {
       offProcTrace[vi] = calc_trace(baseDiags[vi]);
-    }, true);
+    }, false); // everyone, weights to vertices of other ranks are compared too
 
     // reduce diagonals
     FM.template AllreduceNodalData<NT_VERTEX>(baseDiags, [&](auto tab_in) LAMBDA_INLINE { return sum_table(tab_in); });
@@ -183,7 +183,7 @@ InitializeAggData(AgglomerationData<TMESH, ENERGY, TMU, TWEIGHT> &aggData)
     FM.template Apply<NT_VERTEX>([&](auto vi)
     {
       offProcTrace[vi] = ( calc_trace(baseDiags[vi]) - offProcTrace[vi] ) / BS;
-    }, true);
+    }, false);
   }
 
   // L2 contribution (add AFTER reduction above)
-- 
2.43.0


From 4a34afe3f7fadda8e218cef8bb9f42665be8c2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:46 +0000
Subject: [PATCH 46/52] fix: SPW with solid vertices works on ranks without
 shared classes

---
 src/base/coarsening/spw_agg_impl.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/base/coarsening/spw_agg_impl.hpp b/src/base/coarsening/spw_agg_impl.hpp
index bf9223d..f94b804 100644
--- a/src/base/coarsening/spw_agg_impl.hpp
+++ b/src/base/coarsening/spw_agg_impl.hpp
@@ -1523,13 +1523,15 @@ FormAgglomerates_impl (Array<Agglomerate> &agglomerates,
       {
         // eliminate ghost-verts from intermediate levels - do not need to
         // take solid/ghost into account after base level !
-        FM.template ApplyEQ2<NT_VERTEX>(Range(1ul, eqc_h.GetNEQCS()),
-          [&](auto eq, auto vs)
+        FM.template ApplyEQ2<NT_VERTEX>([&](auto eq, auto vs)
         {
-          for (auto v : vs)
+          if ( eq > 0 ) // an idle rank has no EQC at all
           {
-            if (!solidVerts->Test(v))
-              { vmap[v] = -1; handled.SetBit(v); }
+            for (auto v : vs)
+            {
+              if (!solidVerts->Test(v))
+                { vmap[v] = -1; handled.SetBit(v); }
+            }
           }
         }, false); // obviously, not master only
       }
-- 
2.43.0


From 1d19aa466fbcb382af185f7ba994631d04975821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:48 +0000
Subject: [PATCH 47/52] fix: SplitChunk does not connect the two ends of an
 open loop

---
 src/stokes/common/loop_utils.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/stokes/common/loop_utils.cpp b/src/stokes/common/loop_utils.cpp
index 5e12e9d..8f0ecf9 100644
--- a/src/stokes/common/loop_utils.cpp
+++ b/src/stokes/common/loop_utils.cpp
@@ -49,10 +49,12 @@ void SplitChunk (FlatArray<IVec<2, int>> chunk, Array<Array<IVec<2, int>>> & spl
       { /** cout << " just first/last of closed loop -> ignore duplicate!" << endl; **/ continue; }
     // the split that goes over array "end" - copy to a help array
     // [spi[-1] .. S-1] \cup [0..spi[0]]
-    int s1 = S - specinds.Last(), s2 = specinds[0] + (closed ? 0 : 1);
+    //   ( the ends of an open chunk are not connected: [0..spi[0]] \cup [1+spi[-1] .. S-1] )
+    int s1 = closed ? S - specinds.Last() : specinds[0] + 1;
+    int s2 = closed ? specinds[0] : S - 1 - specinds.Last();
     FlatArray<IVec<2, int>> bnd_arr(s1 + s2, lh);
-    bnd_arr.Part(0 , s1)    = chunk.Part(specinds.Last(), s1);
-    bnd_arr.Part(s1, s1+s2) = chunk.Part(closed ? 1 : 0, s2);
+    bnd_arr.Part(0 , s1) = chunk.Part(closed ? specinds.Last() : 0, s1);
+    bnd_arr.Part(s1, s2) = chunk.Part(closed ? 1 : 1 + specinds.Last(), s2);
     // cout << " s1 s2 " << s1 << " " << s2 << endl;
     // cout << " bnd_arr = "; prow(bnd_arr); cout << endl;
     SplitChunk(bnd_arr, split_out, lh);
-- 
2.43.0


From fb7e81e0d88a41f864b780bf632b1ffcd32e55be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:48 +0000
Subject: [PATCH 48/52] fix: rotateVLoop gives a closed loop the same direction
 whatever its start

---
 src/stokes/common/loop_utils.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/stokes/common/loop_utils.hpp b/src/stokes/common/loop_utils.hpp
index 026f743..3be9079 100644
--- a/src/stokes/common/loop_utils.hpp
+++ b/src/stokes/common/loop_utils.hpp
@@ -378,9 +378,8 @@ INLINE void rotateVLoop(FlatArray<IVec<2, int>> slk, Array<IVec<2, int>> &rot_bu
     // cout << "  rotateVLoop, start with " << vstart << " @ " << nsi << std::endl;
     // new direction: flip towards "smaller" neib
     bool flip = false;
-    // Note/TODO: I think flip is wrong this way?? (">" does not exist) Should not matter, only needs to be bucketable!
     if ( (0 < nsi) && (nsi + 1 < sslk) ) // start in the middle
-      { flip = slk[nsi+1] < slk[nsi-1]; }
+      { flip = slk[nsi-1] < slk[nsi+1]; }
     else // closed (so len of array >= 4) + at an end [A,B,...,C,A] -> flip determined by B,C
       { flip = slk[sslk-2] < slk[1]; }
     // cout << "  FLIP ? " << flip << endl;
-- 
2.43.0


From d36ad102827fda1b3e17823b4bb723bc8eec7ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:33 +0000
Subject: [PATCH 49/52] fix: coarse Stokes loops are duplicates only if they
 are shared by the same ranks

---
 src/stokes/common/stokes_map_impl.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/stokes/common/stokes_map_impl.hpp b/src/stokes/common/stokes_map_impl.hpp
index a57b38a..34a043e 100644
--- a/src/stokes/common/stokes_map_impl.hpp
+++ b/src/stokes/common/stokes_map_impl.hpp
@@ -583,7 +583,10 @@ void StokesCoarseMap<TMESH> :: MapAdditionalDataB ()
         for (auto l : Range(j)) // check if dup of l
           // TODO: if critical, maybe better: with QuicksortI?
           // all loops start at lowest # edge which is oriented positively
-          if (all_c_loops[bucket[j]] == all_c_loops[bucket[l]])
+          // only if all ranks of the one are the ranks of the other; otherwise, ranks
+          // would not agree on which of the loops they share
+          if ( (all_c_loops[bucket[j]] == all_c_loops[bucket[l]]) &&
+               (all_c_loopers[bucket[j]] == all_c_loopers[bucket[l]]) )
             { cnt_dup++; dupof[j] = l; break; }
         if (dupof[j] != -1) {
           // cout << " CL " << bucket[j] << " is dup of " << bucket[dupof[j]] << endl;
-- 
2.43.0


From 3a3eab4b176aba05a8bab30e69a2a9c6de8f3865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:53 +0000
Subject: [PATCH 50/52] fix: contracted Stokes meshes keep the weights of
 flipped edges with their vertices

---
 src/stokes/common/stokes_map_impl.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/stokes/common/stokes_map_impl.hpp b/src/stokes/common/stokes_map_impl.hpp
index 34a043e..6ff6afd 100644
--- a/src/stokes/common/stokes_map_impl.hpp
+++ b/src/stokes/common/stokes_map_impl.hpp
@@ -1124,7 +1124,7 @@ void StokesContractMap<TMESH> :: MapAdditionalData ()
   cmesh.SetLoopDPs(std::move(cldps));
 
   /**
-   * Have coarse edge/vertex data - BUT FLOW ORIENTATION CAN BE WRONG
+   * Have coarse edge/vertex data - BUT FLOW ORIENTATION (AND THE ORDER OF EDI/EDJ) CAN BE WRONG
    * (whenever vertex map flips larger/smaller v-num).
    * Vertices are numbered consistently, so an edge is flipped iff. all procs flip it.
    * So we can just iterate through edge maps and check flips.
@@ -1163,8 +1163,10 @@ void StokesContractMap<TMESH> :: MapAdditionalData ()
   // cout << endl << endl;
 
   for (auto k : Range(isflipped.Size())) {
-    if (isflipped.Test(k))
-      { cedata[k].flow *= -1; }
+    if (isflipped.Test(k)) {
+      cedata[k].flow *= -1;
+      std::swap(cedata[k].edi, cedata[k].edj);
+    }
   }
 
   /**
-- 
2.43.0


From 2882051540850ad8123eed05d8519e65cf38ea4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:50 +0000
Subject: [PATCH 51/52] fix: only solid vertices without other neighbours lose
 their volume

---
 src/stokes/common/stokes_map_impl.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/stokes/common/stokes_map_impl.hpp b/src/stokes/common/stokes_map_impl.hpp
index 6ff6afd..256ce17 100644
--- a/src/stokes/common/stokes_map_impl.hpp
+++ b/src/stokes/common/stokes_map_impl.hpp
@@ -750,8 +750,11 @@ void StokesCoarseMap<TMESH> :: MapAdditionalDataB ()
 
   Array<int> zero_vol(cmesh.template GetNN<NT_VERTEX>()); zero_vol = 0;
 
+  // a rank knows all neibs of its solid verts, but not all neibs of ghosts
+  auto cghosts = cmesh.GetGhostVerts();
+
   cmesh.template Apply<NT_VERTEX>([&](auto cv) {
-    if (cecon.GetRowIndices(cv).Size() == 1) {
+    if ( (cghosts == nullptr || !cghosts->Test(cv)) && (cecon.GetRowIndices(cv).Size() == 1) ) {
       int cenr = int(cecon.GetRowValues(cv)[0]);
       auto ceflow = L2Norm(cedata[cenr].flow);
       if (ceflow < 1e-12 * cvdata[cv].vol)
-- 
2.43.0


From 7648a87bd8a1c5150bd096382feba0e6da8677e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:30 +0000
Subject: [PATCH 52/52] fix: the local Stokes extension locks the pressure of
 vertices with volume

---
 src/stokes/ncfes/nc_stokes_factory_impl.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/stokes/ncfes/nc_stokes_factory_impl.hpp b/src/stokes/ncfes/nc_stokes_factory_impl.hpp
index c3c5cbe..5a8a413 100644
--- a/src/stokes/ncfes/nc_stokes_factory_impl.hpp
+++ b/src/stokes/ncfes/nc_stokes_factory_impl.hpp
@@ -594,10 +594,13 @@ BuildPrimarySpaceProlongation (BaseAMGFactory::LevelCapsule const &fcap,
         // M(HA + k, HA + HB - 1) = avg_da;
       // }
       // entries should be \int_T q_i * p_bar = |T_i| * 1 * 1
-      for (auto k : Range(HB - 1)) {
-        M(HA + HB - 1, HA + k) = avg_da / avg_flow  * cvinv0 * fvd[agg_vs[k]].vol;
-        M(HA + k, HA + HB - 1) = avg_da / avg_flow  * cvinv0 * fvd[agg_vs[k]].vol;
-      }
+      // rows are numbered by the vertices with positive volume
+      it_real_vs([&](auto vol, auto vi, auto kvi, auto rkvi) {
+        if ( vol <= 0.0 )
+          { return; }
+        M(HA + HB - 1, HA + rkvi) = avg_da / avg_flow  * cvinv0 * vol;
+        M(HA + rkvi, HA + HB - 1) = avg_da / avg_flow  * cvinv0 * vol;
+      });
       // pose avg(pressure) = 1
       rhs.Row(Hi + HB - 1) = avg_da/avg_flow * cvinv0 * cvol;
     }
-- 
2.43.0

