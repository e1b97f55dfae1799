From d91495746cc410203dbfe5b57b905f4a5002054b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:35 +0000
Subject: [PATCH 01/52] fix: BaseSparseMatrix::setSparsityInfo kept the values
 array of the previous sparsity

---
 src/lib/math/SparseMatrix.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/math/SparseMatrix.cpp b/src/lib/math/SparseMatrix.cpp
index 92dde44..9d8c7bd 100755
--- a/src/lib/math/SparseMatrix.cpp
+++ b/src/lib/math/SparseMatrix.cpp
@@ -343,6 +343,11 @@ void BaseSparseMatrix::setSparsityInfo(std::shared_ptr<SparsityInfo> spar_info)
   // use already exist SparsityInfo instance. It can in compressed = false state or already
   // compressed = true state
   si = spar_info;
+  // values which were allocated for the previous SparsityInfo are not valid anymore
+  if (values) {
+    delete[] values;
+    values = nullptr;
+  }
   // if we add SparsityInfo with alreade fixed number of entries we are ready to allocate values
   if (si->compressed == true) 
     compress();
-- 
2.43.0


From d877ab99c043294a2b90bb727c8db6ee5f93d868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:35 +0000
Subject: [PATCH 02/52] fix: BlockSparseSymMatrix copy-of-sparsity constructor
 doubled the number of rows

---
 src/lib/math/BlockSparseMatrix.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lib/math/BlockSparseMatrix.h b/src/lib/math/BlockSparseMatrix.h
index 5d8b2e6..aebbf9c 100644
--- a/src/lib/math/BlockSparseMatrix.h
+++ b/src/lib/math/BlockSparseMatrix.h
@@ -99,7 +99,6 @@ BlockSparseSymMatrix<nb>::BlockSparseSymMatrix(BlockSparseSymMatrix<nb>* ex) {
     for (uint16 j = i+1; j < nb; j++) {
       block(i+1, j+1)->setSparsityInfo(ex->block(i+1, j+1)->getSparsityInfo());
     }
-    total_rows += rows_in_block[i];
   }
 }
 
-- 
2.43.0


From eeaf2d2689ff5d9baed653f69938cd17986294b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:44 +0000
Subject: [PATCH 03/52] fix: writeCoordinateTextFormat left the scientific flag
 set on the caller's stream

---
 src/lib/math/SparseMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/math/SparseMatrix.cpp b/src/lib/math/SparseMatrix.cpp
index 9d8c7bd..08b6551 100755
--- a/src/lib/math/SparseMatrix.cpp
+++ b/src/lib/math/SparseMatrix.cpp
@@ -200,7 +200,7 @@ void BaseSparseMatrix::writeCoordinateTextFormat(std::ostream& out) {
   assert(total == si->numberOfValues);
   // return back old setup
   out.precision(old_precision);
-  out.setf(old_flags);
+  out.flags(old_flags);
 }
 
 
-- 
2.43.0


From 35be87a5615358b51b6c5e38342565fe7cfcf830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:01 +0000
Subject: [PATCH 04/52] fix: dMat self-assignment zeroed the matrix

---
 src/lib/math/Mat.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/math/Mat.h b/src/lib/math/Mat.h
index 617c824..ddb7bd2 100755
--- a/src/lib/math/Mat.h
+++ b/src/lib/math/Mat.h
@@ -500,6 +500,7 @@ public:
 	template <uint16 M> void cpVec(Vec<M> &vec, uint16 col=0);
 	dMat& operator= (const dMat &from)
 	{
+		if (this == &from) return *this;
 		resize(from.dimM, from.dimN);
 		memcpy(this->data, from.data, sizeof(double)*dimM*dimN);
 		return *this;
-- 
2.43.0


From abdbd350995aaff2d8271bdbedce132e16c6d10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:40 +0000
Subject: [PATCH 05/52] fix: Element::assembleM adds to the mass matrix, not to
 the damping matrix

---
 src/lib/elements/element.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/elements/element.h b/src/lib/elements/element.h
index 0401ff2..0bb3ceb 100755
--- a/src/lib/elements/element.h
+++ b/src/lib/elements/element.h
@@ -343,7 +343,7 @@ void Element::assembleM(math::MatSym<dimM> &Me, std::initializer_list<Dof::dofTy
           if ((i==j) && (dj<di)) {
             continue;
           } else {
-            storage->addValueC(nodes[i], nodeDof[di], nodes[j], nodeDof[dj], *Me_p);
+            storage->addValueM(nodes[i], nodeDof[di], nodes[j], nodeDof[dj], *Me_p);
             Me_p++;
           }
         }
-- 
2.43.0


From 18eb54b5e176cb277db1844c38a030d1fb479e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:26 +0000
Subject: [PATCH 06/52] fix: dVec::writeTextFormat keeps 15 digits so that
 dumped vectors compare equal

---
 src/lib/math/Vec.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/math/Vec.cpp b/src/lib/math/Vec.cpp
index 74eb812..8d28d1a 100644
--- a/src/lib/math/Vec.cpp
+++ b/src/lib/math/Vec.cpp
@@ -253,10 +253,15 @@ bool dVec::compare(const dVec& op2, double th) {
 
 
 void dVec::writeTextFormat(std::ostream& out) {
+  // use the same number format as sparse matrices do, to keep values after the round trip
+  auto old_precision = out.precision(15);
+  auto old_flags = out.setf(std::ios_base::scientific, std::ios_base::floatfield);
   out << size() << std::endl;
   for (uint32 i = 0; i < size(); i++) {
     out << data[i] << std::endl;
   }
+  out.precision(old_precision);
+  out.flags(old_flags);
 }
 
 
-- 
2.43.0


From 800b35a47b483de9a2bd7f7168868678290e66f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:37 +0000
Subject: [PATCH 07/52] fix: TimeControl::setStartTime starts the time at the
 start time

---
 src/lib/FESolver.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index 000fcaa..b2b41c5 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -103,15 +103,17 @@ double TimeControl::getCurrentNormalizedTimeDelta() {
 
 
 void TimeControl::setEndTime(double _endTime) {
-  LOG_IF(currentTime > 0.0, ERROR) << "Trying to set end time = " << _endTime
+  LOG_IF(currentTime > startTime, ERROR) << "Trying to set end time = " << _endTime
       << " when solution is running (current time = " << currentTime << ")";
   endTime = _endTime;
 }
 
 
 void TimeControl::setStartTime(double _startTime) {
-  LOG_IF(currentTime > 0.0, ERROR) << "Trying to set start time = " << _startTime
+  LOG_IF(currentTime > startTime, ERROR) << "Trying to set start time = " << _startTime
       << " when solution is running (current time = " << currentTime << ")";
+  // time runs from startTime
+  if (currentTime == startTime) currentTime = _startTime;
   startTime = _startTime;
 }
 
-- 
2.43.0


From 67952a01fc967330cedb016ae00a22cb2e9d30ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:23 +0000
Subject: [PATCH 08/52] fix: Newmark velocity update weights the old and the
 new acceleration correctly

---
 src/lib/FESolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index b2b41c5..1a89071 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -619,7 +619,7 @@ void LinearTransientFESolver::solve() {
 
     // restore derivatives
     vecDDUnext = a0 * (vecUnext - vecU) - a2 * vecDU - a3 * vecDDU;
-    vecDUnext = vecDU + a6 * vecDDUnext + a7 * vecDDU;
+    vecDUnext = vecDU + a6 * vecDDU + a7 * vecDDUnext;
 
     vecU = vecUnext;
     vecDU = vecDUnext;
-- 
2.43.0


From a8473527dc540e684a688407218fc608b89ebdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:25 +0000
Subject: [PATCH 09/52] fix: transient solver applies prescribed DoF values to
 the free equations

---
 src/lib/FESolver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index 1a89071..c5539ed 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -609,6 +609,9 @@ void LinearTransientFESolver::solve() {
       matBVprod(*(matM->block(2)), a0*vecUsl + a2*vecDUsl + a3*vecDDUsl, 1.0, rhs);
       matBVprod(*(matC->block(2)), a1*vecUsl + a4*vecDUsl + a5*vecDDUsl, 1.0, rhs);
 
+      // take into account prescribed dofs values (they are constant in time)
+      matBTVprod(*(matK->block(1,2)), vecUc, -1.0, rhs);
+
       // copy constrained dofs values
       vecUnextc = vecUc;
       // solve equation system
-- 
2.43.0


From 1770c08a33809afa59853d5b80c9f8cacd2aebfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:25 +0000
Subject: [PATCH 10/52] fix: transient solver makes the requested number of
 time steps whatever the rounding of time

---
 src/lib/FESolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index c5539ed..305d2e0 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -603,7 +603,7 @@ void LinearTransientFESolver::solve() {
   eqSolver->factorizeEquations(&matKmod);
 
   // timestepping
-  while (curTime <= time1) {
+  while (curTimestep <= numberOfTimesteps) {
     for (;;) {
       rhs = vecFsl + vecRsl;
       matBVprod(*(matM->block(2)), a0*vecUsl + a2*vecDUsl + a3*vecDDUsl, 1.0, rhs);
-- 
2.43.0


From 18c484070a695659dfe498173d900f2dd850836c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:16 +0000
Subject: [PATCH 11/52] fix: Material::Ci returned a reference to a dead local
 for unknown constants

---
 src/lib/materials/material.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/materials/material.cpp b/src/lib/materials/material.cpp
index bf31414..0eac4eb 100755
--- a/src/lib/materials/material.cpp
+++ b/src/lib/materials/material.cpp
@@ -34,7 +34,7 @@ double& Material::Ci (const std::string& nameConst) {
     }
   }
 	LOG(ERROR) << "Dan't find a material constant with name " << nameConst;
-  double dummy;
+  static double dummy;
   return dummy;
 }
 
-- 
2.43.0


From af9fa1ba30ce1d9aeb725323706617c8bb9678a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:16 +0000
Subject: [PATCH 12/52] fix: Mooney-Rivlin material reported its name as
 Money-Rivlin

---
 src/lib/materials/materials_hyperelastic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/materials/materials_hyperelastic.h b/src/lib/materials/materials_hyperelastic.h
index 6b81b28..ee35e4b 100644
--- a/src/lib/materials/materials_hyperelastic.h
+++ b/src/lib/materials/materials_hyperelastic.h
@@ -95,7 +95,7 @@ class Mat_Comp_MooneyRivlin : public Mat_Hyper_Isotrop_General
 	
 	Mat_Comp_MooneyRivlin () {
 		register_mat_const(3,"C10","C01","K");
-    name = "Money-Rivlin";
+    name = "Mooney-Rivlin";
 	}
 	void W_first_derivatives (double I1, double I2, double I3, double *alpha);
 	void W_second_derivatives (double I1, double I2, double I3, double *alpha);
-- 
2.43.0


From 1a334d5d0c46f12fc3a30d4e03ae974239ead202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:39 +0000
Subject: [PATCH 13/52] fix: virtual destructors for PostProcessor,
 MpcCollection and Material, deleted through the base class

---
 src/lib/Mpc.h                | 1 +
 src/lib/PostProcessor.h      | 2 +-
 src/lib/materials/material.h | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/Mpc.h b/src/lib/Mpc.h
index 22c4a5b..89ecf61 100644
--- a/src/lib/Mpc.h
+++ b/src/lib/Mpc.h
@@ -39,6 +39,7 @@ class Mpc {
 
 class MpcCollection {
   public:
+    virtual ~MpcCollection() { }
     virtual void update() = 0;
     virtual void pre() = 0;
     void printEquations(std::ostream& out);
diff --git a/src/lib/PostProcessor.h b/src/lib/PostProcessor.h
index 3ad5b30..0add1cc 100755
--- a/src/lib/PostProcessor.h
+++ b/src/lib/PostProcessor.h
@@ -15,7 +15,7 @@ class FESolver;
 class PostProcessor {
 public:
 	PostProcessor(FEStorage *st);
-	~PostProcessor() { };
+	virtual ~PostProcessor() { };
 	virtual void pre ()=0;
 	virtual void process (uint16 curLoadstep)=0;
 	virtual void post (uint16 curLoadstep)=0;
diff --git a/src/lib/materials/material.h b/src/lib/materials/material.h
index c8b0d00..058fe02 100755
--- a/src/lib/materials/material.h
+++ b/src/lib/materials/material.h
@@ -17,7 +17,7 @@ public:
 	Material () : MC(NULL), numC(0), code(0) { 
 	}
 	Material (uint16 num_c);
-	~Material()   // TODO: discover the virtual destructor
+	virtual ~Material()
 	{
 		if (MC) delete[] MC; 
 		MC = NULL;
-- 
2.43.0


From a444d183200cf917dfbd009e258d960ebf8b422f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:17 +0000
Subject: [PATCH 14/52] fix: FEStorage::deleteMpcs left dangling pointers in
 the list

---
 src/lib/FEStorage.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/FEStorage.cpp b/src/lib/FEStorage.cpp
index 2d123fa..4445412 100644
--- a/src/lib/FEStorage.cpp
+++ b/src/lib/FEStorage.cpp
@@ -274,6 +274,7 @@ void FEStorage::deleteMpcs() {
     delete *mpc;
     mpc++;
   }
+  mpcs.clear();
 }
 
 
-- 
2.43.0


From 1f2b0e09153aba406b378b08348b3d5a164fec73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:17 +0000
Subject: [PATCH 15/52] fix: a second solution on the same FEStorage counted
 constrained DoFs twice

---
 src/lib/FEStorage.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/FEStorage.cpp b/src/lib/FEStorage.cpp
index 4445412..49e5df3 100644
--- a/src/lib/FEStorage.cpp
+++ b/src/lib/FEStorage.cpp
@@ -341,7 +341,10 @@ void FEStorage::initDofs() {
 	if (nNodes() < 1 && nElements() < 1) {
 		LOG(FATAL) << "No any nodes or elements";
 	}
-  
+
+  // drop the data of a previous solution
+  deleteSolutionData();
+
   nodeDofs.initDofTable(nNodes());
   elementDofs.initDofTable(nElements());
 
-- 
2.43.0


From 313e9eaca7b880bf662c6554c5a3974f3973ad1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:44 +0000
Subject: [PATCH 16/52] fix: PostProcessor::getStatus reported the active flag
 as the failed flag

---
 src/lib/PostProcessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/PostProcessor.cpp b/src/lib/PostProcessor.cpp
index 43c3477..80189f3 100755
--- a/src/lib/PostProcessor.cpp
+++ b/src/lib/PostProcessor.cpp
@@ -15,7 +15,7 @@ PostProcessor::PostProcessor(FEStorage *st) {
 
 std::string PostProcessor::getStatus () {
 	char buf[300];
-	sprintf_s(buf, 200, "PostProcessor No %d: %s\n\tActive - %s, Failed - %s",nPost_proc, name.c_str(),active?"true":"false",active?"true":"false");
+	sprintf_s(buf, 200, "PostProcessor No %d: %s\n\tActive - %s, Failed - %s",nPost_proc, name.c_str(),active?"true":"false",failed?"true":"false");
 	return std::string(buf);
 }
 
-- 
2.43.0


From f7b68deaf51994388a440328cccc57e9a03b739d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:45 +0000
Subject: [PATCH 17/52] fix: TRIANGLE4 plane stress stiffness multiplied by
 (1-my^2) instead of dividing

---
 src/lib/elements/TRIANGLE4.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/elements/TRIANGLE4.cpp b/src/lib/elements/TRIANGLE4.cpp
index 41e2d7a..3792365 100644
--- a/src/lib/elements/TRIANGLE4.cpp
+++ b/src/lib/elements/TRIANGLE4.cpp
@@ -111,7 +111,7 @@ void ElementTRIANGLE4::makeC (math::MatSym<3> &C) {
     }
     //Plane stress state
     if (state == PlaneState::Stress){
-      const double A = E*(1.-my*my);
+      const double A = E/(1.-my*my);
       C.comp(0,0) = 1.*A;
       C.comp(0,1) = my*A; 
       C.comp(1,1) = 1.*A;
-- 
2.43.0


From 7778e746bb60c8cedbfd2db7e5326e6e12977d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:45 +0000
Subject: [PATCH 18/52] fix: TRIANGLE4 added new strains and stresses to those
 of the previous update

---
 src/lib/elements/TRIANGLE4.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/elements/TRIANGLE4.cpp b/src/lib/elements/TRIANGLE4.cpp
index 3792365..ffc6ecc 100644
--- a/src/lib/elements/TRIANGLE4.cpp
+++ b/src/lib/elements/TRIANGLE4.cpp
@@ -68,8 +68,10 @@ void ElementTRIANGLE4::update () {
     U[i*2 + 1] = storage->getNodeDofSolution(getNodeNumber(i), Dof::UY);
   }
   // restore strains
+  strains.zero();
   math::matBVprod(matB, U, 1.0, strains);
   // restore stresses
+  stress.zero();
   math::matBVprod(matC, strains, 1.0, stress);
 }
 
-- 
2.43.0


From eb13c77046799f986d3780c3347065b534c9b776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:12 +0000
Subject: [PATCH 19/52] fix: TETRA0::buildK added the thermal strains to the
 stored strains on every call

---
 src/lib/elements/TETRA0.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lib/elements/TETRA0.cpp b/src/lib/elements/TETRA0.cpp
index b449d51..94a5e78 100644
--- a/src/lib/elements/TETRA0.cpp
+++ b/src/lib/elements/TETRA0.cpp
@@ -51,24 +51,25 @@ void ElementTETRA0::buildK() {
     math::Mat<12,6> matBTC;
     matBTC = matB.transpose()*matC.toMat();
 
+    math::Vec<6> initStrains = strains;
+
     //mechanical initial stress
     if (stress.qlength() != 0.){
-      strains.zero();
       math::Mat<6,6> matP;
       matP = matC.toMat().inv(matC.toMat().det());
-      strains = matP*stress;
+      initStrains = matP*stress;
     }
     
     //termal initial strains
     if (alpha != 0. && T != 0.){
       //temp node forces
       math::Vec<6> tStrains = {alpha*T,alpha*T,alpha*T,0.,0.,0.};
-      strains = strains + tStrains;
+      initStrains = initStrains + tStrains;
     }
 
 
     //mechanical initial strains
-    math::matBVprod(matBTC, strains, -vol, Fe);
+    math::matBVprod(matBTC, initStrains, -vol, Fe);
 
     assembleK(matKe, Fe, {Dof::UX, Dof::UY, Dof::UZ});
   }
-- 
2.43.0


From 4e3c87ab03685fa28f43f08aef17dd279318b757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:12 +0000
Subject: [PATCH 20/52] fix: TETRA0 stresses did not account for thermal
 strains

---
 src/lib/elements/TETRA0.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/elements/TETRA0.cpp b/src/lib/elements/TETRA0.cpp
index 94a5e78..78d33b6 100644
--- a/src/lib/elements/TETRA0.cpp
+++ b/src/lib/elements/TETRA0.cpp
@@ -104,8 +104,11 @@ void ElementTETRA0::update () {
   strains.zero();
   math::matBVprod(matB, U, -1.0, strains);
   
+  // thermal strains don't produce stresses
+  math::Vec<6> tStrains = {alpha*T,alpha*T,alpha*T,0.,0.,0.};
+  math::Vec<6> elStrains = strains - tStrains;
   stress.zero();
-  math::matBVprod(matC, strains, 1.0, stress);
+  math::matBVprod(matC, elStrains, 1.0, stress);
 }
 
 void ElementTETRA0::makeB(math::Mat<6,12> &B)
-- 
2.43.0


From 8b4a6fdb0805192bd2037d038b72954ed7bbd551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:12 +0000
Subject: [PATCH 21/52] fix: TETRA0 queries ignored the scale argument

---
 src/lib/elements/TETRA0.cpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/lib/elements/TETRA0.cpp b/src/lib/elements/TETRA0.cpp
index 78d33b6..a1ae818 100644
--- a/src/lib/elements/TETRA0.cpp
+++ b/src/lib/elements/TETRA0.cpp
@@ -204,7 +204,7 @@ void ElementTETRA0::makeC (math::MatSym<6> &C) {
 
 bool ElementTETRA0::getScalar(double* scalar, scalarQuery query, uint16 gp, const double scale) {
   if (query == scalarQuery::VOL){
-     *scalar += vol;
+     *scalar += vol*scale;
     return true;
   }
   return false;
@@ -212,27 +212,27 @@ bool ElementTETRA0::getScalar(double* scalar, scalarQuery query, uint16 gp, cons
 
 bool  ElementTETRA0::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint16 gp, const double scale) {
   if (query == tensorQuery::C){
-      tensor->comp(0,0) += strains[0];
-      tensor->comp(1,1) += strains[1];
-      tensor->comp(2,2) += strains[2];
-      tensor->comp(0,1) += strains[3];
-      tensor->comp(1,2) += strains[4];
-      tensor->comp(0,2) += strains[5];
+      tensor->comp(0,0) += strains[0]*scale;
+      tensor->comp(1,1) += strains[1]*scale;
+      tensor->comp(2,2) += strains[2]*scale;
+      tensor->comp(0,1) += strains[3]*scale;
+      tensor->comp(1,2) += strains[4]*scale;
+      tensor->comp(0,2) += strains[5]*scale;
       return true;
   }
   if (query == tensorQuery::E){
-    tensor->comp(0,0) += stress[0];
-    tensor->comp(1,1) += stress[1];
-    tensor->comp(2,2) += stress[2];
-    tensor->comp(0,1) += stress[3];
-    tensor->comp(1,2) += stress[4];
-    tensor->comp(0,2) += stress[5];
+    tensor->comp(0,0) += stress[0]*scale;
+    tensor->comp(1,1) += stress[1]*scale;
+    tensor->comp(2,2) += stress[2]*scale;
+    tensor->comp(0,1) += stress[3]*scale;
+    tensor->comp(1,2) += stress[4]*scale;
+    tensor->comp(0,2) += stress[5]*scale;
     return true;
   }
   if (query == tensorQuery::TSTRAIN){
-    tensor->comp(0,0) += alpha*T;
-    tensor->comp(1,1) += alpha*T;
-    tensor->comp(2,2) += alpha*T;
+    tensor->comp(0,0) += alpha*T*scale;
+    tensor->comp(1,1) += alpha*T*scale;
+    tensor->comp(2,2) += alpha*T*scale;
     tensor->comp(0,1) += 0.;
     tensor->comp(1,2) += 0.;
     tensor->comp(0,2) += 0.;
-- 
2.43.0


From d21d204a7417754e9a382576fbe60ee9564a4119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:12 +0000
Subject: [PATCH 22/52] fix: TETRA1 assembled a negative conductivity matrix,
 heat loads acted with the wrong sign

---
 src/lib/elements/TETRA1.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/elements/TETRA1.cpp b/src/lib/elements/TETRA1.cpp
index 3465078..4f99260 100644
--- a/src/lib/elements/TETRA1.cpp
+++ b/src/lib/elements/TETRA1.cpp
@@ -131,9 +131,9 @@ void ElementTETRA1::makeB(math::Mat<3,4> &B)
 }
 
 void ElementTETRA1::makeC (math::MatSym<3> &C) {
-  C.comp(0,0) = -k;
-  C.comp(1,1) = -k;
-  C.comp(2,2) = -k;
+  C.comp(0,0) = k;
+  C.comp(1,1) = k;
+  C.comp(2,2) = k;
 }
 
 bool ElementTETRA1::getScalar(double* scalar, scalarQuery query, uint16 gp, const double scale) {
-- 
2.43.0


From 4b3a0c440784ef89682af5f6f81b327870fb5599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:12 +0000
Subject: [PATCH 23/52] fix: TETRA1 temperature gradient had the sign of the
 flux

---
 src/lib/elements/TETRA1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/elements/TETRA1.cpp b/src/lib/elements/TETRA1.cpp
index 4f99260..0729a04 100644
--- a/src/lib/elements/TETRA1.cpp
+++ b/src/lib/elements/TETRA1.cpp
@@ -150,7 +150,7 @@ bool  ElementTETRA1::getVector(math::Vec<3>* vector, vectorQuery query, uint16 g
       *vector += flux*scale;
       return true;
     case vectorQuery::GRADT:
-      *vector += flux*(scale/k);
+      *vector += flux*(-scale/k);
       return true;
   }  
   return false;
-- 
2.43.0


From 098cea419e72acc170387872905a805186dffe15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:15 +0000
Subject: [PATCH 24/52] fix: PLANE41 invariants query wrote past the vector it
 was given

---
 src/lib/elements/PLANE41.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/elements/PLANE41.cpp b/src/lib/elements/PLANE41.cpp
index fe31d30..b482a4b 100755
--- a/src/lib/elements/PLANE41.cpp
+++ b/src/lib/elements/PLANE41.cpp
@@ -200,9 +200,9 @@ bool ElementPLANE41::getVector(math::Vec<3>* vector, vectorQuery query, uint16 g
       CVec[M_YY] = C[gp][1];
       CVec[M_XY] = C[gp][2];
       solidmech::IC_C(CVec.ptr(), IC);
-      vector[0] += IC[0] * scale;
-      vector[1] += IC[1] * scale;
-      vector[2] += IC[2] * scale;
+      (*vector)[0] += IC[0] * scale;
+      (*vector)[1] += IC[1] * scale;
+      (*vector)[2] += IC[2] * scale;
       return true;
   }
   return false;
-- 
2.43.0


From 8bf2aab1dc6320d2caeb2c53e3ea72ca063f3463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:15 +0000
Subject: [PATCH 25/52] fix: PLANE41 Cauchy stress used the transposed
 deformation gradient and ignored the scale

---
 src/lib/elements/PLANE41.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib/elements/PLANE41.cpp b/src/lib/elements/PLANE41.cpp
index b482a4b..23c03fd 100755
--- a/src/lib/elements/PLANE41.cpp
+++ b/src/lib/elements/PLANE41.cpp
@@ -244,10 +244,11 @@ bool  ElementPLANE41::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint
   switch (query) {
     case tensorQuery::COUCHY:
 
+      // F^T
       matF.zero();
       matF.data[0][0] = 1+O[gp][0]; //11
-      matF.data[0][1] = O[gp][1];  //12
-      matF.data[1][0] = O[gp][2];  //21
+      matF.data[1][0] = O[gp][1];  //12
+      matF.data[0][1] = O[gp][2];  //21
       matF.data[1][1] = 1+O[gp][3];//22
       matF.data[2][2] = 1; //33
 
@@ -264,7 +265,7 @@ bool  ElementPLANE41::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint
       mat = dynamic_cast<Mat_Hyper_Isotrop_General*>(storage->getMaterial());
       CHECK_NOTNULL(mat);
       mat->getS_UP(6, solidmech::defaultTensorComponents, CVec.ptr(), p_e, matS.data);
-      matBTDBprod(matF, matS, 1.0/J, *tensor); //Symmetric Couchy tensor
+      matBTDBprod(matF, matS, 1.0/J*scale, *tensor); //Symmetric Couchy tensor
       return true;
 
     case tensorQuery::PK2:
-- 
2.43.0


From f26e5fa099cca901bab86273a526f9d63766d353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:16 +0000
Subject: [PATCH 26/52] fix: SOLID81 stress queries added the pressure part
 twice

---
 src/lib/elements/SOLID81.cpp | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/lib/elements/SOLID81.cpp b/src/lib/elements/SOLID81.cpp
index a3130f4..34d240b 100644
--- a/src/lib/elements/SOLID81.cpp
+++ b/src/lib/elements/SOLID81.cpp
@@ -282,8 +282,6 @@ bool  ElementSOLID81::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint
   Mat<3,3> matF;
   MatSym<3> matS;
   double J;
-  double cInv[6];
-  double pe;
 
   switch (query) {
     case tensorQuery::COUCHY:
@@ -301,25 +299,17 @@ bool  ElementSOLID81::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint
 
       J = solidmech::J_C(C[gp].ptr());
 
-      //deviatoric part of S: Sd = S[gp]
-      //hydrostatic part of S: Sp = p * J * C^(-1)
-      solidmech::invC_C (C[gp].ptr(), J, cInv); 
-      pe = storage->getElementDofSolution(getElNum(), Dof::HYDRO_PRESSURE);
-      // TODO: it seems that S[gp] contains deviatoric + pressure already..
-      // we dont need to sum it again
+      // S[gp] contains deviatoric and hydrostatic (p * J * C^(-1)) parts
       for (uint16 i = 0; i < 6; i++) {
-        matS.data[i] = S[gp][i] + pe * J * cInv[i];
+        matS.data[i] = S[gp][i];
       }
       matBTDBprod (matF, matS, 1.0/J*scale, *tensor); //Symmetric Couchy tensor
       return true;
 
     case tensorQuery::PK2:
-      // hydrostatic part of S: Sp = p * J * C^(-1)
-      J = solidmech::J_C(C[gp].ptr());
-      solidmech::invC_C (C[gp].ptr(), J, cInv); 
-      pe = storage->getElementDofSolution(getElNum(), Dof::HYDRO_PRESSURE);
+      // S[gp] contains deviatoric and hydrostatic (p * J * C^(-1)) parts
       for (uint16 i = 0; i < 6; i++) {
-        tensor->data[i] += (S[gp][i] + pe * J * cInv[i]) * scale;
+        tensor->data[i] += S[gp][i] * scale;
       }
       return true;
 
-- 
2.43.0


From 77b550fbb7ecf69d39c9f2eacc222d2d871731f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:16 +0000
Subject: [PATCH 27/52] fix: SOLID81 deviatoric energy was computed from the
 full invariants

---
 src/lib/elements/SOLID81.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/elements/SOLID81.cpp b/src/lib/elements/SOLID81.cpp
index 34d240b..645340a 100644
--- a/src/lib/elements/SOLID81.cpp
+++ b/src/lib/elements/SOLID81.cpp
@@ -218,7 +218,9 @@ bool ElementSOLID81::getScalar(double* scalar, scalarQuery query, uint16 gp, con
     case scalarQuery::WU:
       getVector(&tmp, vectorQuery::IC, gp, 1.0);
       mat = CHECK_NOTNULL(dynamic_cast<Mat_Hyper_Isotrop_General*>(storage->getMaterial()));
-      *scalar += mat->W(tmp[0], tmp[1], tmp[2]) * scale;
+      // the energy is a function of invariants of the volume preserving part of C
+      J = tmp[2];
+      *scalar += mat->W(tmp[0] * pow(J, -2.0/3.0), tmp[1] * pow(J, -4.0/3.0), 1.0) * scale;
       return true;
 
     case scalarQuery::WP:
-- 
2.43.0


From 204aca5f91a98e88083be8b127fd7d91ce24298a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:16 +0000
Subject: [PATCH 28/52] fix: INTER0 tangent basis degenerated for some normal
 directions

---
 src/lib/elements/INTER0.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/elements/INTER0.cpp b/src/lib/elements/INTER0.cpp
index 8884c3f..670a7d1 100644
--- a/src/lib/elements/INTER0.cpp
+++ b/src/lib/elements/INTER0.cpp
@@ -23,7 +23,13 @@ void ElementINTER0::buildK() {
   K.setZero();
 
   //Произвольный линенйно независмый базис
-  math::Vec<3> s1(n[0],n[1]+1.,n[2]+1.);
+  // a coordinate axis which is far from the normal direction is never parallel to it
+  math::Vec<3> s1(0., 0., 0.);
+  uint16 axis = 0;
+  for (uint16 i = 1; i < 3; i++) {
+    if (fabs(n[i]) < fabs(n[axis])) axis = i;
+  }
+  s1[axis] = n.length();
   //ортогонализаця базиса
   math::Vec<3> proj_s1_n = n*((s1[0]*n[0]+s1[1]*n[1]+s1[2]*n[2])/n.qlength());
   s1 = s1 - proj_s1_n;
-- 
2.43.0


From 8ad6af5f8b845684b9cc15fc32469cd5896e6105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:16 +0000
Subject: [PATCH 29/52] fix: INTER0 strains query ignored the scale

---
 src/lib/elements/INTER0.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/lib/elements/INTER0.cpp b/src/lib/elements/INTER0.cpp
index 670a7d1..78f081a 100644
--- a/src/lib/elements/INTER0.cpp
+++ b/src/lib/elements/INTER0.cpp
@@ -77,12 +77,9 @@ bool  ElementINTER0::getVector(math::Vec<3>* vector, vectorQuery query, uint16 g
 
 bool ElementINTER0::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint16 gp, const double scale){
   if (query == tensorQuery::C){
-      tensor->comp(0,0) += strains[0];
-      tensor->comp(1,1) += strains[1];
-      tensor->comp(2,2) += strains[2];
-      tensor->comp(0,1) += 0.;
-      tensor->comp(1,2) += 0.;
-      tensor->comp(0,2) += 0.;
+      tensor->comp(0,0) += strains[0] * scale;
+      tensor->comp(1,1) += strains[1] * scale;
+      tensor->comp(2,2) += strains[2] * scale;
       return true;
   }
   return false;
-- 
2.43.0


From a7c9eb8bbf55ea63d0dd5d776e5ed081f7e14608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:16 +0000
Subject: [PATCH 30/52] fix: INTER3 tensor queries ignored the scale and
 returned nothing for other queries

---
 src/lib/elements/INTER3.cpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/lib/elements/INTER3.cpp b/src/lib/elements/INTER3.cpp
index 35e985d..4dc8e32 100644
--- a/src/lib/elements/INTER3.cpp
+++ b/src/lib/elements/INTER3.cpp
@@ -215,23 +215,18 @@ bool  ElementINTER3::getVector(math::Vec<3>* vector, vectorQuery query, uint16 g
 
 bool ElementINTER3::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint16 gp, const double scale){
   if (query == tensorQuery::C){
-      tensor->comp(0,0) += strains[0];
-      tensor->comp(1,1) += strains[1];
-      tensor->comp(2,2) += strains[2];
-      tensor->comp(0,1) += 0.;
-      tensor->comp(1,2) += 0.;
-      tensor->comp(0,2) += 0.;
+      tensor->comp(0,0) += strains[0] * scale;
+      tensor->comp(1,1) += strains[1] * scale;
+      tensor->comp(2,2) += strains[2] * scale;
       return true;
   }
   if (query == tensorQuery::E){
-    tensor->comp(0,0) += stress[0];
-    tensor->comp(1,1) += stress[1];
-    tensor->comp(2,2) += stress[2];
-    tensor->comp(0,1) += 0.;
-    tensor->comp(1,2) += 0.;
-    tensor->comp(0,2) += 0.;
+    tensor->comp(0,0) += stress[0] * scale;
+    tensor->comp(1,1) += stress[1] * scale;
+    tensor->comp(2,2) += stress[2] * scale;
     return true;
   }
+  return false;
 }
 
 
-- 
2.43.0


From 120f7f4cfcb370407f36c621dabb040a8740a9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:16 +0000
Subject: [PATCH 31/52] fix: INTER3 averaged strains and stresses were not
 divided by the area

---
 src/lib/elements/INTER3.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/elements/INTER3.cpp b/src/lib/elements/INTER3.cpp
index 4dc8e32..c60ddf2 100644
--- a/src/lib/elements/INTER3.cpp
+++ b/src/lib/elements/INTER3.cpp
@@ -94,7 +94,8 @@ void ElementINTER3::update () {
   }
 
   Eigen::VectorXd strainsE(3);
-  strainsE = U2S - U1S;
+  // surface averaged: divide by the area of the triangle
+  strainsE = (U2S - U1S) / (0.5 * det);
 
   Eigen::MatrixXd D(3,3);
   make_D(D);
-- 
2.43.0


From 70baeddcb6ff989b00450b869a7039b26de13e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:16 +0000
Subject: [PATCH 32/52] fix: CE records with one or more than two terms were
 read past the line

---
 src/lib/FEReaders.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/FEReaders.cpp b/src/lib/FEReaders.cpp
index a503562..2c7ed87 100644
--- a/src/lib/FEReaders.cpp
+++ b/src/lib/FEReaders.cpp
@@ -561,7 +561,8 @@ bool readCdbFile(std::string filename, MeshData& md) {
         getLine(file, line);
         t.tokenize(line);
         uint16 place = 6;
-        for (int i = 0; i < std::max(n_terms, 2); i++) {
+        int in_row = std::min(n_terms, 2);
+        for (int i = 0; i < in_row; i++) {
           uint32 node = t.tokenInt(3 + 3 * i + 0);
           Dof::dofType dof = Dof::label2dofType(t.tokens[3 + 3 * i + 1]);
           double coef = t.tokenDouble(3 + 3 * i + 2);
-- 
2.43.0


From 7252f3013a8a92f0002348044e5e49f2bd92f94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:16 +0000
Subject: [PATCH 33/52] fix: compressNumbers left permuted node numbers and
 failed on a mesh without nodes

---
 src/lib/FEReaders.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/FEReaders.cpp b/src/lib/FEReaders.cpp
index 2c7ed87..c472283 100644
--- a/src/lib/FEReaders.cpp
+++ b/src/lib/FEReaders.cpp
@@ -34,7 +34,11 @@ void MeshData::clear() {
 
 void MeshData::compressNumbers() {
   // numbers should start from 1
-  if (nodesNumbers.size() == *std::max_element(nodesNumbers.begin(), nodesNumbers.end())) { 
+  bool isCompressed = true;
+  for (uint32 i = 0; i < nodesNumbers.size() && isCompressed; i++) {
+    isCompressed = (nodesNumbers[i] == i + 1);
+  }
+  if (isCompressed) {
     // nothing to do
     return;
   }
-- 
2.43.0


From c434b0d6f4f59cc937d4a7b600282c48cb53c424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:16 +0000
Subject: [PATCH 34/52] fix: getCellsByAttribute read past an empty list for an
 unknown attribute

---
 src/lib/FEReaders.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/FEReaders.cpp b/src/lib/FEReaders.cpp
index c472283..35ca48c 100644
--- a/src/lib/FEReaders.cpp
+++ b/src/lib/FEReaders.cpp
@@ -101,8 +101,11 @@ std::vector<uint32> MeshData::getDegeneratedCells() {
 
 std::vector<uint32> MeshData::getCellsByAttribute(std::string atr_name, uint32 atr_val) {
   std::vector<uint32> res;
+  auto data = cellIntData.find(atr_name);
+  // no cell has such attribute
+  if (data == cellIntData.end()) return res;
   for (size_t i = 0; i < cellNumbers.size(); i++) {
-    if (cellIntData[atr_name][i] == atr_val) {
+    if (data->second[i] == atr_val) {
       res.push_back(i);
     }
   }
-- 
2.43.0


From 40ec4d8b9ace60e79048a7b403789067bc50db3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:16 +0000
Subject: [PATCH 35/52] fix: sfirstNotBlank read outside of a blank string

---
 src/lib/FEReaders.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/FEReaders.cpp b/src/lib/FEReaders.cpp
index 35ca48c..51b44a8 100644
--- a/src/lib/FEReaders.cpp
+++ b/src/lib/FEReaders.cpp
@@ -145,6 +145,7 @@ string& stoupper(string& str) {
 
 char sfirstNotBlank(const string& str) {
   size_t st = str.find_first_not_of(space_chars, 0);
+  if (st == string::npos) return '\0';
   return str[st];
 }
 
-- 
2.43.0


From e7caa59af685f8ab255edc5b8428924b913d1c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:16 +0000
Subject: [PATCH 36/52] fix: automatic choice of reaction DoFs queried unused
 DoFs and accepted free ones

---
 src/lib/ReactionProcessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/ReactionProcessor.cpp b/src/lib/ReactionProcessor.cpp
index 72ab1b7..e99b16f 100755
--- a/src/lib/ReactionProcessor.cpp
+++ b/src/lib/ReactionProcessor.cpp
@@ -41,7 +41,7 @@ void ReactionProcessor::pre() {
     uint32 n = 0;
     while (sameDofsConstrained && n < nodes.size()) {
       for (uint16 d = 0; d < dofs.size(); d++) {
-        if (!storage->isNodeDofUsed(nodes[n], dofs[d]) && !storage->getNodeDof(nodes[n], dofs[d])->isConstrained) {
+        if (!storage->isNodeDofUsed(nodes[n], dofs[d]) || !storage->getNodeDof(nodes[n], dofs[d])->isConstrained) {
           LOG(FATAL) << "Different dofs are constrained in the node set. Autochoosing of dofs is failed";
           sameDofsConstrained = false;
           break;
-- 
2.43.0


From 1454772432c489d7fccbce763c8e6a72f72d41b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:16 +0000
Subject: [PATCH 37/52] fix: ReactionProcessor without nodes or without a file
 had no result lists

---
 src/lib/ReactionProcessor.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/lib/ReactionProcessor.cpp b/src/lib/ReactionProcessor.cpp
index e99b16f..414aae1 100755
--- a/src/lib/ReactionProcessor.cpp
+++ b/src/lib/ReactionProcessor.cpp
@@ -19,6 +19,7 @@ ReactionProcessor::ReactionProcessor(FEStorage *st, std::string _filename) : Pos
 void ReactionProcessor::pre() {
 	if (nodes.size() == 0) {
     LOG(WARNING) << "Can't work. No nodes. Processor name = " << name;
+    sumOfDofsReactions.assign(dofs.size(), std::vector<double> (1, 0.0));
     return;
   }
 
@@ -64,6 +65,7 @@ void ReactionProcessor::pre() {
       n++;
     }
   }
+  sumOfDofsReactions.assign(dofs.size(), std::vector<double> (1, 0.0));
   if (filename.length() > 0) {
     std::ofstream file(filename.c_str(),std::ios::trunc);
     if (!file) {
@@ -81,11 +83,6 @@ void ReactionProcessor::pre() {
     file << std::endl;
     file.close();
   }
-  sumOfDofsReactions.assign(dofs.size(), std::vector<double> ());
-  for (uint16 d = 0; d < dofs.size(); d++) {
-    //sumOfDofsReactions[d].reserve(qLoadstep+1);
-    sumOfDofsReactions[d].push_back(0.0);
-  }
 }
 
 void ReactionProcessor::process (uint16 curLoadstep) {
-- 
2.43.0


From 29104bd162327da0d70ae88e338f7e9781cf2302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:16 +0000
Subject: [PATCH 38/52] fix: tensor results in vtk files started from
 uninitialized values

---
 src/lib/VtkProcessor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/VtkProcessor.cpp b/src/lib/VtkProcessor.cpp
index e50040e..a508671 100755
--- a/src/lib/VtkProcessor.cpp
+++ b/src/lib/VtkProcessor.cpp
@@ -265,7 +265,8 @@ void VtkProcessor::write_cell_data(std::ofstream &file) {
   for(auto query : cellTensorQueries) {
     dataTensor.assign(en, MatSym<3>());
     for (uint32 i = 1; i <= storage->nElements(); i++) {
-      // dataTensor[i-1].zero();
+      // the default MatSym is not initialized
+      dataTensor[i-1].zero();
       storage->getElement(i).getTensor(&(dataTensor[i-1]), query);
     }
     writeTensor(file, query2label(query), dataTensor); 
-- 
2.43.0


From 222c55a872b9f269f65094ebbcd03347ac5f8deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:46 +0000
Subject: [PATCH 39/52] fix: reference curve reader dropped repeated values

---
 src/main.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index 8c4d1f2..6751cdf 100755
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -343,19 +343,14 @@ std::vector<double> readRefCurveData (std::string fileRefCurve) {
   std::ifstream file(fileRefCurve.c_str());
   std::string dummy;
   double tmp;
-  double pre_tmp = -1.0;
   std::vector<double> res;
   file >> dummy >> dummy >> dummy;
   if (dummy.compare("force") != 0) {
     LOG(ERROR) << "readRefCurveData: Expecting third column to a force column";
     exit(1);
   }
-  while (!file.eof()) {
-    file >> dummy >> dummy >> tmp;
-    if (tmp != pre_tmp) {
-      res.push_back(tmp);
-      pre_tmp = tmp;
-    }
+  while (file >> dummy >> dummy >> tmp) {
+    res.push_back(tmp);
   }
   file.close();
   return res;
-- 
2.43.0


From dd43b9e1cfdd09f8c2e6b85136bd59453926b38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:46 +0000
Subject: [PATCH 40/52] fix: option values like -.5 were taken for the next
 option

---
 src/lib/sys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sys.cpp b/src/lib/sys.cpp
index c9afa35..9a6522f 100755
--- a/src/lib/sys.cpp
+++ b/src/lib/sys.cpp
@@ -88,7 +88,7 @@ std::vector<char*> getCmdManyOptions(char ** begin, char ** end, const std::stri
     std::vector<char*> _vec;
     char ** itr = std::find(begin, end, option);
     if (itr != end && ++itr != end) {
-      while(!(itr[0][0] == '-' && (itr[0][1] < '0' || itr[0][1] > '9'))) {
+      while(!(itr[0][0] == '-' && itr[0][1] != '.' && (itr[0][1] < '0' || itr[0][1] > '9'))) {
         _vec.push_back(*itr);
         if (++itr == end) {
           break;
-- 
2.43.0


From e9c30dfd8b9de59830deb8ed212403a8efd69365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:47 +0000
Subject: [PATCH 41/52] fix: getFileNameFromPath took a dot in a directory name
 for an extension

---
 src/lib/sys.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/sys.cpp b/src/lib/sys.cpp
index 9a6522f..9093330 100755
--- a/src/lib/sys.cpp
+++ b/src/lib/sys.cpp
@@ -105,9 +105,12 @@ bool cmdOptionExists(char** begin, char** end, const std::string& option) {
 //TODO: this functions only truncate file extension. 
 //But it was intended to leave only a file name (delete path and extension)
 std::string getFileNameFromPath(const std::string filename) {
+    // a dot in a directory name doesn't start an extension
+    std::string::const_reverse_iterator name =
+          std::find_if( filename.rbegin(), filename.rend(), MatchPathSeparator() );
     std::string::const_reverse_iterator pivot = 
-          std::find( filename.rbegin(), filename.rend(), '.' );
-    return pivot == filename.rend()
+          std::find( filename.rbegin(), name, '.' );
+    return pivot == name
         ? filename
         : std::string( filename.begin(), pivot.base() - 1 );
 }
-- 
2.43.0


From 5e02a3e26b372acf32e633b13fa0395c66ab221d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:47 +0000
Subject: [PATCH 42/52] fix: unknown material or missing material constants
 crashed the program

---
 src/main.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index 6751cdf..2ad9d1c 100755
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -170,10 +170,17 @@ int main (int argc, char* argv[]) {
   }
   md.compressNumbers();
 
-  Material* mat = CHECK_NOTNULL (MaterialFactory::createMaterial(options::materialName));
-  if (mat->getNumC() != options::materialConstants.size())
+  Material* mat = MaterialFactory::createMaterial(options::materialName);
+  if (mat == nullptr) {
+    exit(1);
+  }
+  if (mat->getNumC() != options::materialConstants.size()) {
     LOG(ERROR) << "Material " << options::materialName << " needs exactly " << mat->getNumC()
       << " constants (" << options::materialConstants.size() << " were provided)";
+    if (mat->getNumC() > options::materialConstants.size()) {
+      exit(1);
+    }
+  }
   for (uint16 i = 0; i < mat->getNumC(); i++) {
     mat->Ci(i) = options::materialConstants[i];
   }
-- 
2.43.0


From 6f405ded06e38f797b1014b7b76c8452d1982597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:47 +0000
Subject: [PATCH 43/52] fix: -rigidbody master node was not renumbered with the
 mesh

---
 src/main.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index 2ad9d1c..cae7332 100755
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -168,7 +168,13 @@ int main (int argc, char* argv[]) {
   if (!readCdbFile (options::modelFilename, md)) {
     LOG(FATAL) << "Can't read FE info from " << options::modelFilename << "file. exiting..";
   }
+  // master node is given by its number in the mesh file
+  size_t masterNodeInd = std::find(md.nodesNumbers.begin(), md.nodesNumbers.end(),
+      options::rigidBodyMasterNode) - md.nodesNumbers.begin();
   md.compressNumbers();
+  if (masterNodeInd < md.nodesNumbers.size()) {
+    options::rigidBodyMasterNode = md.nodesNumbers[masterNodeInd];
+  }
 
   Material* mat = MaterialFactory::createMaterial(options::materialName);
   if (mat == nullptr) {
-- 
2.43.0


From 71020eb6b416ee6df394d6553b7d84ab3305ccb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:32 +0000
Subject: [PATCH 44/52] fix: PARDISO solver released uninitialized data when it
 was never used

---
 src/lib/math/EquationSolver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/math/EquationSolver.cpp b/src/lib/math/EquationSolver.cpp
index d0e8e43..e11876f 100644
--- a/src/lib/math/EquationSolver.cpp
+++ b/src/lib/math/EquationSolver.cpp
@@ -135,7 +135,10 @@ bool GaussDenseEquationSolver::_solve(double* X, double* A,
 
 #ifdef NLA3D_USE_MKL
 PARDISO_equationSolver::~PARDISO_equationSolver () {
-  releasePARDISO();
+  // there is nothing to release if the solver has never been used
+  if (!firstRun) {
+    releasePARDISO();
+  }
 }
 
 void PARDISO_equationSolver::solveEquations (math::SparseSymMatrix* matrix, double* rhs, double* unknowns) {
-- 
2.43.0


From 6a4a2401083f1ed00ae9962479bb2df5e25ec095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:32 +0000
Subject: [PATCH 45/52] fix: PARDISO solver kept the symbolic factorization of
 the previous matrix

---
 src/lib/math/EquationSolver.cpp | 6 ++++++
 src/lib/math/EquationSolver.h   | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/src/lib/math/EquationSolver.cpp b/src/lib/math/EquationSolver.cpp
index e11876f..d11da42 100644
--- a/src/lib/math/EquationSolver.cpp
+++ b/src/lib/math/EquationSolver.cpp
@@ -169,6 +169,11 @@ void PARDISO_equationSolver::substituteEquations(math::SparseSymMatrix* matrix,
 
 void PARDISO_equationSolver::factorizeEquations(math::SparseSymMatrix* matrix) {
   TIMED_SCOPE(t, "factorizeEquations");
+  // symbolic factorization is valid only for the sparsity it was made for
+  if (!firstRun && sparsity != matrix->getSparsityInfo()) {
+    releasePARDISO();
+    firstRun = true;
+  }
   if (firstRun) {
     initializePARDISO(matrix);
   }
@@ -227,6 +232,7 @@ void PARDISO_equationSolver::initializePARDISO (math::SparseSymMatrix* matrix) {
   }
 
   nEq = matrix->nRows();
+  sparsity = matrix->getSparsityInfo();
   int n = static_cast<int> (nEq);
 
   // initialize error code
diff --git a/src/lib/math/EquationSolver.h b/src/lib/math/EquationSolver.h
index f0f3e89..ac833f6 100644
--- a/src/lib/math/EquationSolver.h
+++ b/src/lib/math/EquationSolver.h
@@ -70,6 +70,8 @@ protected:
 	int msglvl = 0; 
   
   bool firstRun = true;
+  // sparsity of the matrix which was symbolically factorized
+  std::shared_ptr<SparsityInfo> sparsity;
   // real symmetric undifinite defined matrix
 	int mtype = -2; 
 };
-- 
2.43.0


From d845111563c0a7099196a5872f2c48a55f26bb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:52 +0000
Subject: [PATCH 46/52] fix: Python kept ownership of constraints added to a
 storage

---
 python/nla3d.swg | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/nla3d.swg b/python/nla3d.swg
index 5cf1689..618c6a3 100644
--- a/python/nla3d.swg
+++ b/python/nla3d.swg
@@ -249,6 +249,8 @@ MATSYM_EXTEND(3)
 
 %rename(_addNode) nla3d::FEStorage::addNode;
 %rename(_addElement) nla3d::FEStorage::addElement;
+%rename(_addMpc) nla3d::FEStorage::addMpc;
+%rename(_addMpcCollection) nla3d::FEStorage::addMpcCollection;
 %include "FEStorage.h"
 %extend nla3d::FEStorage {
   %pythoncode {
@@ -258,6 +260,12 @@ MATSYM_EXTEND(3)
     def addElement(self, el):
         el.thisown = 0 # pass ownership to nla3d::FEStorage
         return self._addElement(el)
+    def addMpc(self, mpc):
+        mpc.thisown = 0 # pass ownership to nla3d::FEStorage
+        return self._addMpc(mpc)
+    def addMpcCollection(self, mpcCol):
+        mpcCol.thisown = 0 # pass ownership to nla3d::FEStorage
+        return self._addMpcCollection(mpcCol)
   }
 
   nla3d::ElementTETRA0& getElementTETRA0(uint32 _en) {
-- 
2.43.0


From 2dbaffdf09122dbf078af8394b7bd7d4dd022d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:53 +0000
Subject: [PATCH 47/52] fix: components with more than 65535 records could not
 be read

---
 src/lib/FEReaders.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/FEReaders.cpp b/src/lib/FEReaders.cpp
index 51b44a8..f408333 100644
--- a/src/lib/FEReaders.cpp
+++ b/src/lib/FEReaders.cpp
@@ -616,7 +616,7 @@ bool readCdbFile(std::string filename, MeshData& md) {
         }
 
         uint16 in_row = 0;
-        uint16 all = 0;
+        size_t all = 0;
 
         // read all ranges and calculate overall number of entities in component list
         vector<int32> rangesVec;
-- 
2.43.0


From c0888da479951ebe87139da0168fb52dc04f3e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:24 +0000
Subject: [PATCH 48/52] fix: transient analysis with 65535 time steps never
 ended

---
 src/lib/FESolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index 305d2e0..62b9286 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -545,7 +545,7 @@ void LinearTransientFESolver::solve() {
 
   double dt = (time1 - time0) / numberOfTimesteps;
   double curTime = time0 + dt;
-  uint16 curTimestep = 1;
+  uint32 curTimestep = 1;
   // initialize parameters of Newmark procedure
   a0 = 1.0 / (alpha * dt * dt);
   a1 = delta / (alpha * dt);
-- 
2.43.0


From 0f8c104342f58d257e584e28b0ecdb298707bfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:24 +0000
Subject: [PATCH 49/52] fix: a dynamic matrix was printed to the standard
 output instead of the given stream

---
 src/lib/math/Mat.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/math/Mat.cpp b/src/lib/math/Mat.cpp
index fdefd4d..031561f 100755
--- a/src/lib/math/Mat.cpp
+++ b/src/lib/math/Mat.cpp
@@ -50,10 +50,10 @@ Mat<3,3> Mat<3,3>::inv(double det) {
 std::ostream &operator<<(std::ostream &stream, dMat &obj) {
 	for (uint16 i = 0; i < obj.dimM; i++)
 	{
-		std::cout << "[";
+		stream << "[";
 		for (uint16 j = 0; j < obj.dimN; j++)
-			std::cout << obj[i][j] << " ";
-		std::cout << "]" << std::endl;
+			stream << obj[i][j] << " ";
+		stream << "]" << std::endl;
 	}
 	return stream;
 }
-- 
2.43.0


From 8819ff931c893ff29385817d227c8a9c4c4de950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:24 +0000
Subject: [PATCH 50/52] fix: text of a node with large coordinates was cut

---
 src/lib/Node.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index 3a8a673..ab5b41f 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -14,8 +14,8 @@ void Node::display (uint32 nn) {
 
 std::string Node::toString() {
   std::string str;
-  char buff[100];
-  sprintf_s(buff,100,"%f %f %f",pos[0], pos[1], pos[2]);
+  char buff[1000]; // up to 317 characters for a coordinate
+  sprintf_s(buff,1000,"%f %f %f",pos[0], pos[1], pos[2]);
   str+=buff;
   return str; //TODO: do it easy
 }
-- 
2.43.0


From e2ee97b103a537a3aa078659eba96b33c4ff1ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:06 +0000
Subject: [PATCH 51/52] fix: tokens longer than 32767 characters were cut or
 refused

---
 src/lib/sys.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/sys.cpp b/src/lib/sys.cpp
index 9093330..f33a9c0 100755
--- a/src/lib/sys.cpp
+++ b/src/lib/sys.cpp
@@ -43,7 +43,7 @@ std::vector<std::string> read_tokens(char *input) {
 			delp++;
 		}
 		if (isfind) {
-			tmp.assign(start, (int16) (p-start));
+			tmp.assign(start, p-start);
 			del_spaces(tmp);
 			vec.push_back(tmp);
 			vec.push_back(std::string(delp,1));
@@ -53,14 +53,14 @@ std::vector<std::string> read_tokens(char *input) {
 		}
 		p++;
 	}
-	tmp.assign(start, (int16) (p-start));
+	tmp.assign(start, p-start);
 	del_spaces(tmp);
 	vec.push_back(tmp);
 	return vec;
 }
 
 void del_spaces (std::string &str) {
-	uint16 start = 0;
+	size_t start = 0;
 	if (str.length()==0) return;
 	while (str[start]==' ' ) {
 		start++;
@@ -69,7 +69,7 @@ void del_spaces (std::string &str) {
 			return;
 		}
 	}
-	uint16 end = static_cast<uint16> (str.length()-1);
+	size_t end = str.length()-1;
 	while (str[end] ==' ') {
     end--;
   }
-- 
2.43.0


From c3c4ec7e9a2f64b0c4515f73f27df907d1edf314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:06 +0000
Subject: [PATCH 52/52] fix: log named wrong degrees of freedom of a rigid body

---
 src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index cae7332..aa5bcf4 100755
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -294,7 +294,7 @@ int main (int argc, char* argv[]) {
     std::vector<std::string> slaveDofLabels;
     slaveDofLabels.assign(mpc->dofs.size(), "");
     for (uint16 i = 0; i < mpc->dofs.size(); i++) {
-      slaveDofLabels[i] = Dof::dofTypeLabels[i];
+      slaveDofLabels[i] = Dof::dofTypeLabels[mpc->dofs[i]];
     }
 
     LOG(INFO) << "Rigid Body MPC collection: master node = " << mpc->masterNode << ", number of slaves = " <<  
-- 
2.43.0

