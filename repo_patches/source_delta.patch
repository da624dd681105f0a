From ca848a6c23beb909fbc41689df5de3a80b6760d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:07 +0000
Subject: [PATCH 01/32] fix: SO3::ln picks a largest diagonal entry also when
 two are equal

---
 src/geometry/SO3.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geometry/SO3.cpp b/src/geometry/SO3.cpp
index 395ad64..c1e0eba 100644
--- a/src/geometry/SO3.cpp
+++ b/src/geometry/SO3.cpp
@@ -189,14 +189,14 @@ Mat3 SO3::ln(double *ro) const
         Mat31 w;
         double d = std::cos(o);
 
-        if( R_(0,0) > R_(1,1) && R_(0,0) > R_(2,2) )
+        if( R_(0,0) >= R_(1,1) && R_(0,0) >= R_(2,2) )
         {
             // For stability, we average the two elements since it is almost symetric
             w << R_(0,0) - d,
                  0.5 * ( R_(0,1) + R_(1,0)),
                  0.5 * ( R_(0,2) + R_(2,0));
         }
-        else if( R_(1,1) > R_(0,0) && R_(1,1) > R_(2,2) )
+        else if( R_(1,1) >= R_(0,0) && R_(1,1) >= R_(2,2) )
         {
             w << 0.5 * ( R_(1,0) + R_(0,1)),
                  R_(1,1) - d,
-- 
2.43.0


From 54080a71b38aee33b2fb2b93b5f54a87a734fd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:07 +0000
Subject: [PATCH 02/32] fix: isSO3 requires orthonormal columns and isSE3
 compares the last row entrywise

---
 src/geometry/SE3.cpp | 2 +-
 src/geometry/SO3.cpp | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/geometry/SE3.cpp b/src/geometry/SE3.cpp
index 9073980..550d699 100644
--- a/src/geometry/SE3.cpp
+++ b/src/geometry/SE3.cpp
@@ -293,7 +293,7 @@ bool mrob::isSE3(Mat4 T)
         return false;
     Mat<1,4> one;
     one << 0,0,0,1;
-    if ( (T.row(3)-one).sum() > 1e-6 )
+    if ( !((T.row(3)-one).cwiseAbs().sum() <= 1e-6) )
         return false;
     return true;
 }
diff --git a/src/geometry/SO3.cpp b/src/geometry/SO3.cpp
index c1e0eba..bf65047 100644
--- a/src/geometry/SO3.cpp
+++ b/src/geometry/SO3.cpp
@@ -284,6 +284,9 @@ bool mrob::isSO3(Mat3 R)
         return false;
     if ( fabs(det - 1.0) > 1e-6)
         return false;
+    // a unit determinant is not enough, the columns have to be orthonormal (the negated form also rejects NaN)
+    if ( !((R.transpose()*R - Mat3::Identity()).norm() < 1e-6) )
+        return false;
     return true;
 
 }
-- 
2.43.0


From b6d0c6993426c0983a351fc981aa9c8c26ac1313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:07 +0000
Subject: [PATCH 03/32] fix: fourth-order covariance uses the
 rotation-translation block in both cross terms

---
 src/geometry/SE3cov.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/SE3cov.cpp b/src/geometry/SE3cov.cpp
index 71e35d6..b69a777 100644
--- a/src/geometry/SE3cov.cpp
+++ b/src/geometry/SE3cov.cpp
@@ -71,7 +71,7 @@ SE3Cov SE3Cov::compound_4th_order(const SE3 &pose_increment, const Mat6 &increme
                      brackets(sigma_1_rr, sigma_2_tt);
 
     Mat3 B_rho_phi = brackets(sigma_1_tt, sigma_2_tr) +
-                     brackets(sigma_1_rt, sigma_2_tt);// There is a mistake in Barfoots p.265,
+                     brackets(sigma_1_tr, sigma_2_tt);
 
     Mat3 B_phi_phi = brackets(sigma_1_tt, sigma_2_tt);
 
-- 
2.43.0


From ba99b0cb6e5a1fc3137f91b902ad92d115a320e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:38 +0000
Subject: [PATCH 04/32] fix: SO3::ln keeps a small rotation when round-off
 brings the trace above three

---
 src/geometry/SO3.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geometry/SO3.cpp b/src/geometry/SO3.cpp
index bf65047..8295c4a 100644
--- a/src/geometry/SO3.cpp
+++ b/src/geometry/SO3.cpp
@@ -141,7 +141,8 @@ Mat3 SO3::ln(double *ro) const
         // Special case tr =1  and theta -> 0
         if ( std::isnan(o) )
         {
-            d1 = 0.0;
+            // limit of 0.5*o/sin(o): the rotation may be small, but it does not have to be the identity
+            d1 = 0.5;
             o = 0.0;
         }
         // 2) incorrect x/sin when approaching 0. The other problematic point o = pi is handled below
-- 
2.43.0


From c6577d42496fba9e07f089c70054b7004a785450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:48 +0000
Subject: [PATCH 05/32] fix: Factor2Poses3d inverts the observation when the
 origin node was created later

---
 src/FGraph/factors/factor2Poses3d.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/FGraph/factors/factor2Poses3d.cpp b/src/FGraph/factors/factor2Poses3d.cpp
index 012e3b3..9deb4d3 100644
--- a/src/FGraph/factors/factor2Poses3d.cpp
+++ b/src/FGraph/factors/factor2Poses3d.cpp
@@ -45,14 +45,14 @@ Factor2Poses3d::Factor2Poses3d(const Mat4 &observation, std::shared_ptr<Node> &n
         neighbourNodes_.push_back(nodeOrigin);
 
         // inverse observations to correctly modify this
-        Tobs_.inv();
+        Tobs_ = Tobs_.inv();
     }
     if (updateNodeTarget)
     {
         // Updates the child node such that it matches the odometry observation
         // carefull on the reference frame that Tobs is expressed at the X_origin frame, hence this change:
         Mat4 TxOrigin = nodeOrigin->get_state();
-        nodeTarget->set_state( TxOrigin * Tobs_.T() );
+        nodeTarget->set_state( TxOrigin * SE3(observation).T() );
     }
 }
 
@@ -72,14 +72,14 @@ Factor2Poses3d::Factor2Poses3d(const SE3 &observation, std::shared_ptr<Node> &no
         neighbourNodes_.push_back(nodeOrigin);
 
         // inverse observations to correctly modify this
-        Tobs_.inv();
+        Tobs_ = Tobs_.inv();
     }
     if (updateNodeTarget)
     {
         // Updates the child node such that it matches the odometry observation
         // carefull on the reference frame that Tobs is expressed at the X_origin frame, hence this change:
         Mat4 TxOrigin = nodeOrigin->get_state();
-        nodeTarget->set_state( TxOrigin * Tobs_.T() );
+        nodeTarget->set_state( TxOrigin * SE3(observation).T() );
     }
 }
 
-- 
2.43.0


From 33e7dc6274721b59425ad4e43e951d4faf4224a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:41 +0000
Subject: [PATCH 06/32] fix: Factor2Poses2d keeps its meaning when the origin
 node was created later, and initialises the target in the origin frame

---
 src/FGraph/factors/factor2Poses2d.cpp      | 32 ++++++++++++++++------
 src/FGraph/mrob/factors/factor2Poses2d.hpp |  1 +
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/FGraph/factors/factor2Poses2d.cpp b/src/FGraph/factors/factor2Poses2d.cpp
index 6dc0e61..d0bbe3d 100644
--- a/src/FGraph/factors/factor2Poses2d.cpp
+++ b/src/FGraph/factors/factor2Poses2d.cpp
@@ -31,7 +31,7 @@ using namespace mrob;
 Factor2Poses2d::Factor2Poses2d(const Mat31 &observation, std::shared_ptr<Node> &nodeOrigin,
                                std::shared_ptr<Node> &nodeTarget, const Mat3 &obsInf, bool updateNodeTarget,
                                Factor::robustFactorType robust_type):
-        Factor(3, 6, robust_type), obs_(observation), W_(obsInf)
+        Factor(3, 6, robust_type), obs_(observation), W_(obsInf), reversedNodeOrder_(false)
 {
     if (nodeOrigin->get_id() < nodeTarget->get_id())
     {
@@ -40,16 +40,22 @@ Factor2Poses2d::Factor2Poses2d(const Mat31 &observation, std::shared_ptr<Node> &
     }
     else
     {
-        // we reverse the order and simply invert the observation function (not always true)
         neighbourNodes_.push_back(nodeTarget);
         neighbourNodes_.push_back(nodeOrigin);
 
-        // reverse observations to account for this
-        obs_ = -observation;
+        // set reverse mode
+        reversedNodeOrder_ = true;
     }
     if (updateNodeTarget)
     {
-        Mat31 dx = nodeOrigin->get_state() +  obs_ - nodeTarget->get_state();
+        // the observation is expressed in the frame of the origin
+        Mat31 origin = nodeOrigin->get_state();
+        double c1 = std::cos(origin(2)),
+               s1 = std::sin(origin(2));
+        Mat31 dx = origin - nodeTarget->get_state();
+        dx(0) += c1*obs_(0) - s1*obs_(1);
+        dx(1) += s1*obs_(0) + c1*obs_(1);
+        dx(2) += obs_(2);
         nodeTarget->update(dx);
     }
 }
@@ -57,8 +63,10 @@ Factor2Poses2d::Factor2Poses2d(const Mat31 &observation, std::shared_ptr<Node> &
 
 void Factor2Poses2d::evaluate_residuals() {
     // Evaluation of h(i,j)
-    Mat31   nodeOrigin = get_neighbour_nodes()->at(0).get()->get_state(),
-            nodeTarget = get_neighbour_nodes()->at(1).get()->get_state();
+    uint_t originIndex = reversedNodeOrder_ ? 1 : 0;
+    uint_t targetIndex = reversedNodeOrder_ ? 0 : 1;
+    Mat31   nodeOrigin = get_neighbour_nodes()->at(originIndex).get()->get_state(),
+            nodeTarget = get_neighbour_nodes()->at(targetIndex).get()->get_state();
 
     // r = h(i,j) - obs = Ri^T * (xj- xi) - obs .  From "i", i.e, at its reference frame, we observe xj
     Mat31 h = nodeTarget - nodeOrigin;
@@ -74,8 +82,10 @@ void Factor2Poses2d::evaluate_residuals() {
 
 void Factor2Poses2d::evaluate_jacobians()
 {
-    Mat31   nodeOrigin = get_neighbour_nodes()->at(0).get()->get_state(),
-            nodeTarget = get_neighbour_nodes()->at(1).get()->get_state();
+    uint_t originIndex = reversedNodeOrder_ ? 1 : 0;
+    uint_t targetIndex = reversedNodeOrder_ ? 0 : 1;
+    Mat31   nodeOrigin = get_neighbour_nodes()->at(originIndex).get()->get_state(),
+            nodeTarget = get_neighbour_nodes()->at(targetIndex).get()->get_state();
 
     // r =  Ri^T * (xj- xi) - obs
     // J1 = [-R1^T,    J2 = [R1^T 0]
@@ -87,6 +97,10 @@ void Factor2Poses2d::evaluate_jacobians()
     J_ <<   -c1, -s1, -s1*dx + c1*dy,     c1, s1, 0,
              s1, -c1, -c1*dx - s1*dy,    -s1, c1, 0,
               0,   0,    -1,              0,  0, 1;
+
+    // the Jacobian blocks follow the order of the nodes
+    if (reversedNodeOrder_)
+        J_.leftCols<3>().swap(J_.rightCols<3>());
 }
 
 void Factor2Poses2d::evaluate_chi2()
diff --git a/src/FGraph/mrob/factors/factor2Poses2d.hpp b/src/FGraph/mrob/factors/factor2Poses2d.hpp
index f0b043b..434d2d2 100644
--- a/src/FGraph/mrob/factors/factor2Poses2d.hpp
+++ b/src/FGraph/mrob/factors/factor2Poses2d.hpp
@@ -74,6 +74,7 @@ namespace mrob{
         Mat31 obs_, r_; //and residuals
         Mat3 W_;//inverse of observation covariance (information matrix)
         Mat<3,6> J_;//Joint Jacobian
+        bool reversedNodeOrder_;// flag to keep order when building the adjacency matrix, same as in factor1Pose1Landmark2d
 
     public:
         EIGEN_MAKE_ALIGNED_OPERATOR_NEW // as proposed by Eigen
-- 
2.43.0


From ed98dedbb961cb66f062dca581c1e74ee7c19277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:41 +0000
Subject: [PATCH 07/32] fix: Factor2Poses2dOdom Jacobian accounts for the first
 rotation of the odometry

---
 src/FGraph/factors/factor2Poses2d.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/FGraph/factors/factor2Poses2d.cpp b/src/FGraph/factors/factor2Poses2d.cpp
index d0bbe3d..9748800 100644
--- a/src/FGraph/factors/factor2Poses2d.cpp
+++ b/src/FGraph/factors/factor2Poses2d.cpp
@@ -148,7 +148,8 @@ void Factor2Poses2dOdom::evaluate_jacobians()
     // Get the position of node we are traversing from
     Mat31 node1 = get_neighbour_nodes()->at(0).get()->get_state();
 
-    auto s = -obs_(1) * std::sin(node1(2)), c = obs_(1) * std::cos(node1(2));
+    // the translation happens after the first rotation
+    auto s = -obs_(1) * std::sin(node1(2) + obs_(0)), c = obs_(1) * std::cos(node1(2) + obs_(0));
 
     // Jacobians for odometry model which are: G and -I
     J_ <<   1, 0, s,    -1, 0, 0,
-- 
2.43.0


From 82847cb2536c1af750ece49bafeeba76291ccac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:41 +0000
Subject: [PATCH 08/32] fix: FGraphSolve Levenberg-Marquardt starts from the
 lambda given by the caller

---
 src/FGraph/factor_graph_solve.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/FGraph/factor_graph_solve.cpp b/src/FGraph/factor_graph_solve.cpp
index ed667b3..7b39c24 100644
--- a/src/FGraph/factor_graph_solve.cpp
+++ b/src/FGraph/factor_graph_solve.cpp
@@ -144,8 +144,7 @@ uint_t FGraphSolve::optimize_levenberg_marquardt(uint_t maxIters)
 
     // LM trust region as described in Bertsekas (p.105)
 
-    // 0) parameter initialization
-    lambda_ = 1e-5;
+    // 0) parameter initialization, lambda_ is given by the user in solve()
     // sigma reference to the fidelity of the model at the proposed solution \in [0,1]
     matData_t sigma1(0.25), sigma2(0.8);// 0 < sigma1 < sigma2 < 1
     matData_t beta1(2.0), beta2(0.25); // lambda updates multiplier values, beta1 > 1 > beta2 >0
-- 
2.43.0


From a6dab35a93812f67da89cf658d2b2e648a75defe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:41 +0000
Subject: [PATCH 09/32] fix: robust weights are evaluated at the distance u =
 sqrt(r'Wr), as documented

---
 src/FGraph/factor_graph_solve.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/FGraph/factor_graph_solve.cpp b/src/FGraph/factor_graph_solve.cpp
index 7b39c24..692428f 100644
--- a/src/FGraph/factor_graph_solve.cpp
+++ b/src/FGraph/factor_graph_solve.cpp
@@ -318,7 +318,8 @@ void FGraphSolve::build_adjacency()
             {
                 uint_t iRow = indFactorsMatrix[i] + l;
                 uint_t iCol = indFactorsMatrix[i] + k;
-                robust_weight = f->evaluate_robust_weight(std::sqrt(f->get_chi2()));
+                // chi2 = 0.5 r'Wr and the distance is u = sqrt(r'Wr)
+                robust_weight = f->evaluate_robust_weight(std::sqrt(2.0*f->get_chi2()));
                 W_.insert(iRow,iCol) = robust_weight * f->get_information_matrix()(l,k);
             }
         }
-- 
2.43.0


From 42d0adaa4c9545d20f8bb46c501f6d8372159ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:41 +0000
Subject: [PATCH 10/32] fix: Node::rm_factor leaves the list alone when the
 factor is not in it

---
 src/FGraph/node.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/FGraph/node.cpp b/src/FGraph/node.cpp
index f318f49..3dd7737 100644
--- a/src/FGraph/node.cpp
+++ b/src/FGraph/node.cpp
@@ -52,6 +52,8 @@ bool Node::rm_factor(std::shared_ptr<Factor> &factor)
         if (*f == factor)
             break;
     }
+    if (f == neighbourFactors_.end())
+        return false;
     neighbourFactors_.erase(f);
     return true;
 }
-- 
2.43.0


From 0d65d800aea82e8aff28d7b3d6019cd3c4214c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:41 +0000
Subject: [PATCH 11/32] fix: wrap_angle terminates for every angle

---
 src/FGraph/node.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/FGraph/node.cpp b/src/FGraph/node.cpp
index 3dd7737..91645f2 100644
--- a/src/FGraph/node.cpp
+++ b/src/FGraph/node.cpp
@@ -23,6 +23,8 @@
 
 #include "mrob/node.hpp"
 
+#include <cmath>
+
 using namespace mrob;
 
 Node::Node(uint_t dim, nodeMode mode):
@@ -63,6 +65,10 @@ double mrob::wrap_angle(double angle)
 {
     double pi2 = 2 * M_PI;
 
+    // reduces the number of turns first: subtracting one turn from a large angle may not even change it
+    if (std::fabs(angle) > 10 * pi2)
+        angle = std::fmod(angle, pi2);
+
     while (angle < -M_PI) angle += pi2;
     while (angle >= M_PI) angle -= pi2;
 
-- 
2.43.0


From eaa8641404891f10ea71df6d56e82ec20beaf2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:41 +0000
Subject: [PATCH 12/32] fix: Factor1Pose1Landmark3d initialises the landmark
 when asked to

---
 src/FGraph/factors/factor1Pose1Landmark3d.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/FGraph/factors/factor1Pose1Landmark3d.cpp b/src/FGraph/factors/factor1Pose1Landmark3d.cpp
index 05a1f6f..7bfdd62 100644
--- a/src/FGraph/factors/factor1Pose1Landmark3d.cpp
+++ b/src/FGraph/factors/factor1Pose1Landmark3d.cpp
@@ -50,7 +50,10 @@ Factor1Pose1Landmark3d::Factor1Pose1Landmark3d(const Mat31 &observation, std::sh
 
     if (initializeLandmark)
     {
-        // TODO Initialize landmark value to whatever observation we see from current pose
+        // Initialize landmark value to whatever observation we see from current pose
+        Mat4 Tx = nodePose->get_state();
+        Mat31 land = SE3(Tx).transform(observation);
+        nodeLandmark->set_state(land);
     }
 }
 
-- 
2.43.0


From e231acf75044990188ac1636992593398a2b0655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:41 +0000
Subject: [PATCH 13/32] fix: NodePlane4d keeps unit normals when its state is
 set

---
 src/FGraph/mrob/factors/nodePlane4d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FGraph/mrob/factors/nodePlane4d.hpp b/src/FGraph/mrob/factors/nodePlane4d.hpp
index 0ccadc1..b8977d3 100644
--- a/src/FGraph/mrob/factors/nodePlane4d.hpp
+++ b/src/FGraph/mrob/factors/nodePlane4d.hpp
@@ -52,8 +52,8 @@ class NodePlane4d : public Node
      */
     virtual void update(const Eigen::Ref<const MatX1> &dx) override;
     virtual void update_from_auxiliary(const Eigen::Ref<const MatX1> &dx) override;
-    virtual void set_state(const Eigen::Ref<const MatX> &x) override {state_ = x;};
-    virtual void set_auxiliary_state(const Eigen::Ref<const MatX> &x) override {auxiliaryState_ = x;};
+    virtual void set_state(const Eigen::Ref<const MatX> &x) override {state_ = x; state_.head(3).normalize();};
+    virtual void set_auxiliary_state(const Eigen::Ref<const MatX> &x) override {auxiliaryState_ = x; auxiliaryState_.head(3).normalize();};
     virtual const Eigen::Ref<const MatX> get_state() const override {return state_;};
     virtual const Eigen::Ref<const MatX> get_auxiliary_state() const override {return auxiliaryState_;};
     virtual void print() const override;
-- 
2.43.0


From c275dc5d6b9bef781e382c7c56af7d07cd996bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:41 +0000
Subject: [PATCH 14/32] fix: NodePose2d wraps the heading it is constructed
 with

---
 src/FGraph/factors/nodePose2d.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/FGraph/factors/nodePose2d.cpp b/src/FGraph/factors/nodePose2d.cpp
index 14ec4f3..dfcf3a1 100644
--- a/src/FGraph/factors/nodePose2d.cpp
+++ b/src/FGraph/factors/nodePose2d.cpp
@@ -30,6 +30,9 @@ NodePose2d::NodePose2d(const Mat31 &initial_x, Node::nodeMode mode) : Node(3, mo
 {
     assert(initial_x.rows() == 3 && "NodePose2d:: Incorrect dimension on initial state rows");
     assert(initial_x.cols() == 1 && "NodePose2d:: Incorrect dimension on initial state cols");
+    // headings are always wrapped
+    state_(2) = wrap_angle(state_(2));
+    auxiliaryState_(2) = wrap_angle(auxiliaryState_(2));
 }
 
 void NodePose2d::update(const Eigen::Ref<const MatX1> &dx)
-- 
2.43.0


From db03153db4b539bf030a1ef99a158f6a653fb1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:41 +0000
Subject: [PATCH 15/32] fix: adding a node or factor twice does not duplicate
 it in the graph

---
 src/FGraph/factor_graph.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/FGraph/factor_graph.cpp b/src/FGraph/factor_graph.cpp
index 99b882e..93cc2e4 100644
--- a/src/FGraph/factor_graph.cpp
+++ b/src/FGraph/factor_graph.cpp
@@ -43,6 +43,9 @@ FGraph::~FGraph()
 
 factor_id_t FGraph::add_factor(std::shared_ptr<Factor> &factor)
 {
+    // already in the graph, nothing to add
+    if (factor->get_id() < factors_.size() && factors_[factor->get_id()] == factor)
+        return factor->get_id();
 	factor->set_id(factors_.size());
 	factors_.push_back(factor);
     auto *list = factor->get_neighbour_nodes();
@@ -56,6 +59,9 @@ factor_id_t FGraph::add_factor(std::shared_ptr<Factor> &factor)
 
 factor_id_t FGraph::add_eigen_factor(std::shared_ptr<Factor> &factor)
 {
+    // already in the graph, nothing to add
+    if (factor->get_id() < eigen_factors_.size() && eigen_factors_[factor->get_id()] == factor)
+        return factor->get_id();
     factor->set_id(eigen_factors_.size());
     eigen_factors_.push_back(factor);
     auto *list = factor->get_neighbour_nodes();
@@ -70,6 +76,9 @@ factor_id_t FGraph::add_eigen_factor(std::shared_ptr<Factor> &factor)
 
 factor_id_t FGraph::add_node(std::shared_ptr<Node> &node)
 {
+    // already in the graph, nothing to add
+    if (node->get_id() < nodes_.size() && nodes_[node->get_id()] == node)
+        return node->get_id();
 	node->set_id(nodes_.size());
 	nodes_.push_back(node);
 	switch(node->get_node_mode())
-- 
2.43.0


From a6423b7d2d99c1b1efb911e7b8c46dc91e3d2baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:01 +0000
Subject: [PATCH 16/32] fix: FGraphSolveDense leaves anchor nodes out of the
 problem

---
 src/FGraph/factor_graph_solve_dense.cpp | 29 ++++++++++++++-----------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/FGraph/factor_graph_solve_dense.cpp b/src/FGraph/factor_graph_solve_dense.cpp
index 916e8a7..3413b8e 100644
--- a/src/FGraph/factor_graph_solve_dense.cpp
+++ b/src/FGraph/factor_graph_solve_dense.cpp
@@ -76,24 +76,24 @@ void FGraphSolveDense::calculate_gradient_hessian()
 
     // 3) calculate the indexes for the nodes for block allocation
     std::vector<uint_t> indNodesMatrix, indNodeId;
-    indNodesMatrix.reserve(nodes_.size());
-    indNodeId.reserve(nodes_.size());
+    indNodesMatrix.reserve(active_nodes_.size());
+    indNodeId.reserve(active_nodes_.size());
     uint_t N = 0, M = 0;
-    for (size_t i = 0; i < nodes_.size(); ++i)
+    for (size_t i = 0; i < active_nodes_.size(); ++i)
     {
         // calculate the indices to access
-        uint_t dim = nodes_[i]->get_dim();
+        uint_t dim = active_nodes_[i]->get_dim();
         indNodesMatrix.push_back(N);
-        indNodeId.push_back(nodes_[i]->get_id()); //bookkeeps the nodes ids
+        indNodeId.push_back(active_nodes_[i]->get_id()); //bookkeeps the nodes ids
         N += dim;
     }
     assert(N == stateDim_ && "FGraphSolveDense::HessianAndGradient: State Dimensions are not coincident\n");
 
     // 4) create Hessian and gradient, by traversing all nodes, looking for its factors
     //    and completing the rows in the Hessian and gradient.
-    for (uint_t n = 0; n < nodes_.size(); ++n)
+    for (uint_t n = 0; n < active_nodes_.size(); ++n)
     {
-        auto node = nodes_[n];
+        auto node = active_nodes_[n];
         uint_t node_id =  node->get_id();
         N = node->get_dim();
         auto factors = node->get_neighbour_factors();
@@ -131,6 +131,9 @@ void FGraphSolveDense::calculate_gradient_hessian()
                 // Hessian: H(n,m) = \sum J_n_t'*W*J_m
                 // Look for the corresponding index
                 auto it = std::find(indNodeId.begin(), indNodeId.end(), node2->get_id());
+                // anchor nodes are constants, they are not part of the state
+                if (it == indNodeId.end())
+                    continue;
                 auto index = std::distance(indNodeId.begin(), it);
                 // Only the current block row is filled in (corresponding to the n-node). We could use a triang view...
                 hessian_.block(indNodesMatrix[n], indNodesMatrix[index],N,M) +=
@@ -145,25 +148,25 @@ void FGraphSolveDense::calculate_gradient_hessian()
 void FGraphSolveDense::update_state()
 {
     int acc_start = 0;
-    for (uint_t i = 0; i < nodes_.size(); i++)
+    for (uint_t i = 0; i < active_nodes_.size(); i++)
     {
         // node update is the negative of dx just calculated.
         // x = x - alpha * H^(-1) * Grad = x - dx
         // Depending on the optimization, it is already taking care of the step alpha, so we assume alpha = 1
-        const auto &node_update = dx_.block(acc_start, 0, nodes_[i]->get_dim(), 1);
-        nodes_[i]->update(node_update);
+        const auto &node_update = dx_.block(acc_start, 0, active_nodes_[i]->get_dim(), 1);
+        active_nodes_[i]->update(node_update);
 
-        acc_start += nodes_[i]->get_dim();
+        acc_start += active_nodes_[i]->get_dim();
     }
 }
 void FGraphSolveDense::bookkeep_state()
 {
-    for (auto &&n : nodes_)
+    for (auto &&n : active_nodes_)
         n->set_auxiliary_state(n->get_state());
 }
 void FGraphSolveDense::update_state_from_bookkeep()
 {
-    for (auto &&n : nodes_)
+    for (auto &&n : active_nodes_)
         n->set_state(n->get_auxiliary_state());
 }
 
-- 
2.43.0


From 135d33e077cc4aa9f8411d2d0ade4b70cea1434e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:52 +0000
Subject: [PATCH 17/32] fix: FGraphSolveDense adds the gradient of a factor
 once, not once per connected node

---
 src/FGraph/factor_graph_solve_dense.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/FGraph/factor_graph_solve_dense.cpp b/src/FGraph/factor_graph_solve_dense.cpp
index 3413b8e..095ae06 100644
--- a/src/FGraph/factor_graph_solve_dense.cpp
+++ b/src/FGraph/factor_graph_solve_dense.cpp
@@ -117,6 +117,10 @@ void FGraphSolveDense::calculate_gradient_hessian()
                 matrix_index += (*nodes_connected)[m]->get_dim();
             }
 
+            // Gradient: Grad(n) = \sum J_n_t*W*r, once per factor
+            gradient_.segment(indNodesMatrix[n], N) +=
+                    J_n_t * f->get_information_matrix() * f->get_residual();
+
             // Calculate the second part corresponding on the second factor
             matrix_index = 0;
             for (uint_t m = 0; m < nodes_connected->size() ; ++m)
@@ -125,9 +129,6 @@ void FGraphSolveDense::calculate_gradient_hessian()
                 M = node2->get_dim();
                 MatX J_m = J.block(0, matrix_index, D,M);
                 matrix_index += M;
-                // Gradient: Grad(n) = \sum J_n_t*W*r
-                gradient_.segment(indNodesMatrix[n], N) +=
-                        J_n_t * f->get_information_matrix() * f->get_residual();
                 // Hessian: H(n,m) = \sum J_n_t'*W*J_m
                 // Look for the corresponding index
                 auto it = std::find(indNodeId.begin(), indNodeId.end(), node2->get_id());
-- 
2.43.0


From c961955e9d5123e991f10b40ab1056294b1c9d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:17 +0000
Subject: [PATCH 18/32] fix: Levenberg-Marquardt rejects a trial whose cost is
 not a number

---
 src/FGraph/factor_graph_solve.cpp | 2 +-
 src/common/optimizer.cpp          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FGraph/factor_graph_solve.cpp b/src/FGraph/factor_graph_solve.cpp
index 692428f..32c4f8b 100644
--- a/src/FGraph/factor_graph_solve.cpp
+++ b/src/FGraph/factor_graph_solve.cpp
@@ -168,7 +168,7 @@ uint_t FGraphSolve::optimize_levenberg_marquardt(uint_t maxIters)
                   << iter << " lambda = " << lambda_ << ", error " << currentChi2
                   << ", and delta = " << deltaChi2
                   << std::endl;
-        if (deltaChi2 < 0)
+        if (!(deltaChi2 >= 0))// also rejects NaN, e.g. from a singular system
         {
             // proposed dx did not improve, repeat 1) and reduce area of optimization = increase lambda
             lambda_ *= beta1;
diff --git a/src/common/optimizer.cpp b/src/common/optimizer.cpp
index 8e68128..52a197e 100644
--- a/src/common/optimizer.cpp
+++ b/src/common/optimizer.cpp
@@ -122,7 +122,7 @@ uint_t Optimizer::optimize_levenberg_marquardt()
         improvement = true;
 
         // 2) Check for convergence, hillclimb
-        if (diff_error < 0)
+        if (!(diff_error >= 0))// also rejects NaN, e.g. from a singular Hessian
         {
             //std::cout << "no improvement\n";
             lambda_ *= beta1;
-- 
2.43.0


From d503b447189c6000fad198439208df42038d6c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:41 +0000
Subject: [PATCH 19/32] fix: arun tests for degenerate correspondences relative
 to their extent

---
 src/PCRegistration/arun.cpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/PCRegistration/arun.cpp b/src/PCRegistration/arun.cpp
index 89af244..b0d11c6 100644
--- a/src/PCRegistration/arun.cpp
+++ b/src/PCRegistration/arun.cpp
@@ -42,7 +42,7 @@ int PCRegistration::arun(const Ref<const MatX> X, const Ref<const MatX> Y, SE3 &
      *  2) calculate dispersion from centroids qx = x_i - cx
      *  3) calculate matrix H = sum qx_i * qy_i^T
      *  4) svd decomposition: H = U*D*V'
-     *      4.5) look for co-linear solutions, that is 2 of the 3 singular values are equal
+     *      4.5) look for degenerate (co-linear) solutions
      *  5) Calculate the rotation solution R = V*U'
      *      5.5) check for correct solution (det = +1) or reflection (det = -1)
      *      step 5.5 is actually unnecessary IF applying Umeyama technique
@@ -75,17 +75,12 @@ int PCRegistration::arun(const Ref<const MatX> X, const Ref<const MatX> Y, SE3 &
                  ",\n V = " << SVD.matrixV() << std::endl;*/
 
 
-    // 4.5) look for co-linear solutions, that is 2 of the 3 singular values are equal
-    double l_prev = SVD.singularValues()(0), l;
-    for(int i =1; i < 3; ++i)
-    {
-        l = SVD.singularValues()(i);
-        if (fabs(l - l_prev) < 1e-6)
-
-            return 0; //they are co-linear, there exist infinite transformations
-        else
-            l_prev = l;//this works because we assume that they singular values are ordered.
-    }
+    // 4.5) look for degenerate solutions. The rotation is unique if s2 + det(V*U') * s3 > 0, otherwise (co-linear or
+    //      coincident points) there exist infinite transformations. The test is relative to the extent of the points.
+    Mat31 s = SVD.singularValues();// these are ordered
+    double reflection = SVD.matrixV().determinant() * SVD.matrixU().determinant() < 0.0 ? -1.0 : 1.0;
+    if ( !(s(1) + reflection * s(2) > 1e-9 * qx.norm() * qy.norm()) )
+        return 0;
 
 
     // 5) Calculate the rotation solution R = V*U'
-- 
2.43.0


From 23d3860d2bf6b1c0224ef0f5c00f0eaea3ea2f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:41 +0000
Subject: [PATCH 20/32] fix: Plane::clear_points keeps the time structure and
 clears counters and moments

---
 src/PCRegistration/plane.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/PCRegistration/plane.cpp b/src/PCRegistration/plane.cpp
index b61d2fc..4b1b716 100644
--- a/src/PCRegistration/plane.cpp
+++ b/src/PCRegistration/plane.cpp
@@ -116,7 +116,11 @@ std::vector<Mat31>& Plane::get_points(uint_t t)
 
 void Plane::clear_points()
 {
-    allPlanePoints_.clear();
+    // the time structure is kept, only its points are removed
+    for (auto &points : allPlanePoints_)
+        points.clear();
+    numberPoints_ = 0;
+    matrixS_.clear();
 }
 
 
-- 
2.43.0


From 46366d76082348fc7a1a12d3caad2570829c2da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:41 +0000
Subject: [PATCH 21/32] fix: points added to a plane after its moments were
 calculated are taken into account

---
 src/PCRegistration/plane.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/PCRegistration/plane.cpp b/src/PCRegistration/plane.cpp
index 4b1b716..54125c5 100644
--- a/src/PCRegistration/plane.cpp
+++ b/src/PCRegistration/plane.cpp
@@ -104,6 +104,13 @@ void Plane::push_back_point(Mat31 &point, uint_t t)
         //allPlanePoints_[t].push_back(homogeneousPoint);
         allPlanePoints_[t].push_back(point);
         ++numberPoints_;
+        // keep the moments up to date if they were already calculated
+        if (!matrixS_.empty())
+        {
+            Mat41 pHomog;
+            pHomog << point , 1.0;
+            matrixS_[t] += pHomog * pHomog.transpose();
+        }
     }
 }
 
-- 
2.43.0


From f19240c65bf0d779f6f7804036c726bab5f3e093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:59 +0000
Subject: [PATCH 22/32] fix: incremental plane estimates update the stored
 matrix of that time step and the error

---
 src/PCRegistration/plane.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PCRegistration/plane.cpp b/src/PCRegistration/plane.cpp
index 54125c5..24dc19a 100644
--- a/src/PCRegistration/plane.cpp
+++ b/src/PCRegistration/plane.cpp
@@ -159,11 +159,13 @@ double Plane::estimate_plane()
 double Plane::estimate_plane_incrementally(uint_t t)
 {
     accumulatedQ_ -= matrixQ_[t];
-    accumulatedQ_ +=  trajectory_->at(t).T() * matrixS_[t] * trajectory_->at(t).T().transpose();
+    matrixQ_[t] = trajectory_->at(t).T() * matrixS_[t] * trajectory_->at(t).T().transpose();
+    accumulatedQ_ += matrixQ_[t];
     //std::cout << "new acc Q " << accumulatedQ_ << std::endl;
     Eigen::SelfAdjointEigenSolver<Mat4> eigs(accumulatedQ_);
     planeEstimation_ = eigs.eigenvectors().col(0);
-    return eigs.eigenvalues()(0);
+    lambda_ = eigs.eigenvalues()(0);
+    return lambda_;
 }
 
 double Plane::get_error_incremental(uint_t t) const
-- 
2.43.0


From b39d806e4487930d455132f959a58097fd36a24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:06 +0000
Subject: [PATCH 23/32] fix: solve_initialize associates the planes seen both
 at the first pose and at t

---
 src/PCRegistration/plane_registration.cpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/PCRegistration/plane_registration.cpp b/src/PCRegistration/plane_registration.cpp
index 552285a..4891237 100644
--- a/src/PCRegistration/plane_registration.cpp
+++ b/src/PCRegistration/plane_registration.cpp
@@ -250,17 +250,9 @@ uint_t PlaneRegistration::solve_quaternion_plane()
 
 uint_t PlaneRegistration::solve_initialize()
 {
-    // Initialize matrices of , all points in the Y matrix
-    std::vector<Mat31> Y_points_all;
-    Y_points_all.reserve(numberPlanes_);
-
-    // update data structure for init. All point in the fist pose
+    // update data structure for init.
     for (auto it = planes_.cbegin();  it != planes_.cend(); ++it)
-    {
         it->second->calculate_all_matrices_S();
-        if (it->second->get_number_points(0) > 0 )
-            Y_points_all.push_back(it->second->get_mean_point(0));
-    }
 
     uint_t t = 0;
     // create points Y,X, for t = 1, ... T, minimum 3 planes per pose
@@ -274,17 +266,18 @@ uint_t PlaneRegistration::solve_initialize()
         X_points.clear();
         Y_points.clear();
         number_points = 0;
-        uint_t cont =0;
         for (auto it = planes_.cbegin();  it != planes_.cend(); ++it)
         {
-            if (it->second->get_number_points(t) > 0 )
+            // only planes observed both at the first pose and at t are associated
+            if (it->second->get_number_points(t) > 0 && it->second->get_number_points(0) > 0)
             {
                 X_points.push_back(it->second->get_mean_point(t));
-                Y_points.push_back(Y_points_all[cont]);
+                Y_points.push_back(it->second->get_mean_point(0));
                 number_points++;
             }
-            cont++;
         }
+        if (number_points < 3)
+            return 0;
         // Create the matrices X,Y
         MatX X(number_points,3), Y(number_points,3);
         for (uint_t i = 0; i < number_points; ++i)
-- 
2.43.0


From d5a4638cab9a8aae5ee78a531de8a01957de3602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:06 +0000
Subject: [PATCH 24/32] fix: calculate_poses_rmse accepts ground truth longer
 than the trajectory

---
 src/PCRegistration/plane_registration.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/PCRegistration/plane_registration.cpp b/src/PCRegistration/plane_registration.cpp
index 4891237..b490501 100644
--- a/src/PCRegistration/plane_registration.cpp
+++ b/src/PCRegistration/plane_registration.cpp
@@ -348,13 +348,11 @@ double PlaneRegistration::calculate_poses_rmse(std::vector<SE3> & groundTruth) c
 {
     assert(groundTruth.size() >= numberPoses_ && "PlaneRegistration::calculate_poses_rmse: number of poses from GT is incorrect\n");
     double rmse= 0.0;
-    uint_t t = 0;
-    for (auto &pose: groundTruth)
+    for (uint_t t = 0; t < numberPoses_; ++t)
     {
-        Mat61 dxi = (trajectory_->at(t) * pose.inv()).ln_vee();
+        Mat61 dxi = (trajectory_->at(t) * groundTruth[t].inv()).ln_vee();
         //std::cout << pose.ln_vee().transpose() << " and solution inv first pose \n" << (invFirstPose * trajectory_->at(t) * pose.inv()).ln_vee().transpose() <<std::endl;
         rmse += dxi.dot(dxi)/(double)numberPoses_;
-        ++t;
     }
     return std::sqrt(rmse);
 }
-- 
2.43.0


From 72eb0c9946c433991268b0b96a97c4a99907af1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:19 +0000
Subject: [PATCH 25/32] fix: a plane landmark starts with a zero estimate
 instead of uninitialised memory

---
 src/PCRegistration/plane.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PCRegistration/plane.cpp b/src/PCRegistration/plane.cpp
index 24dc19a..f06c16e 100644
--- a/src/PCRegistration/plane.cpp
+++ b/src/PCRegistration/plane.cpp
@@ -34,7 +34,8 @@
 using namespace mrob;
 
 Plane::Plane(uint_t timeLength):
-        timeLength_(timeLength), isPlaneEstimated_(false), numberPoints_(0)
+        timeLength_(timeLength), planeEstimation_(Mat41::Zero()), isPlaneEstimated_(false), numberPoints_(0),
+        accumulatedQ_(Mat4::Zero())
 {
     allPlanePoints_.reserve(timeLength_);
     // there should be an individual reservation of points
-- 
2.43.0


From 99044b6e091d2861620ec9d3a5b198ca29abf630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:19 +0000
Subject: [PATCH 26/32] fix: print_evaluate sizes its plane arrays by the
 planes held and zeroes the Hessian of unhandled modes

---
 src/PCRegistration/plane_registration.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/PCRegistration/plane_registration.cpp b/src/PCRegistration/plane_registration.cpp
index b490501..294d3a6 100644
--- a/src/PCRegistration/plane_registration.cpp
+++ b/src/PCRegistration/plane_registration.cpp
@@ -407,8 +407,8 @@ std::vector<double> PlaneRegistration::print_evaluate()
     result[5] = initial_error_/k;
     result[6] = get_current_error()/k; //TODO this does not work for GN (but yes to GN ini...)
 
-    MatX allPlanes(numberPlanes_,4);
-    MatX allNormals(numberPlanes_,3);
+    MatX allPlanes(planes_.size(),4);
+    MatX allNormals(planes_.size(),3);
     uint_t i = 0;
 
 
@@ -428,6 +428,7 @@ std::vector<double> PlaneRegistration::print_evaluate()
         case SolveMode::INITIALIZE:
         case SolveMode::GN_CLAMPED_HESSIAN:
             std::cout << "PlaneRegistration::print_evaluate: Not handled" << std::endl;
+            hessian__.setZero();
             break;
     }
 
-- 
2.43.0


From f44885009ee0c1a95f50621afe496322ec6b16f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:05 +0000
Subject: [PATCH 27/32] fix: a singular system does not update the state with
 an incomplete factorisation

---
 src/FGraph/factor_graph_solve.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/FGraph/factor_graph_solve.cpp b/src/FGraph/factor_graph_solve.cpp
index 32c4f8b..5899890 100644
--- a/src/FGraph/factor_graph_solve.cpp
+++ b/src/FGraph/factor_graph_solve.cpp
@@ -132,7 +132,14 @@ void FGraphSolve::optimize_gauss_newton(bool useLambda)
     cholesky.compute(L_);
     time_profiles_.stop("Gauss Newton create Cholesky");
     time_profiles_.start();
-    dx_ = cholesky.solve(b_);
+    if (cholesky.info() == Eigen::Success)
+        dx_ = cholesky.solve(b_);
+    else
+    {
+        // the factors are left incomplete, solving with them would use uninitialised values
+        std::cout << "FGraphSolve::optimize_gauss_newton: singular system, no update" << std::endl;
+        dx_ = MatX1::Zero(N_);
+    }
     time_profiles_.stop("Gauss Newton solve Cholesky");
 
 }
-- 
2.43.0


From 80bfcd5e4b0336bcb88c4bc8e883c164e0a6c459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:43 +0000
Subject: [PATCH 28/32] fix: CreatePoints labels points with integer
 arithmetic, a float cannot count more than 2^24 of them

---
 src/PCRegistration/create_points.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PCRegistration/create_points.cpp b/src/PCRegistration/create_points.cpp
index f27a0dc..c2e3751 100644
--- a/src/PCRegistration/create_points.cpp
+++ b/src/PCRegistration/create_points.cpp
@@ -28,6 +28,7 @@
 #include <cassert>
 #include <iostream>
 #include <cmath>
+#include <cstdint>
 
 using namespace mrob;
 
@@ -179,7 +180,7 @@ CreatePoints::CreatePoints(uint_t numberPoints, uint_t numberPlanes, uint_t numb
         for (uint_t i = 0; i < numberPoints_ ; ++i)
         {
             // parameter is the length of the observed plane
-            uint_t planeId = std::floor((float)i * (float)numberPlanes_/ (float)numberPoints_);
+            uint_t planeId = (uint64_t)i * numberPlanes_ / numberPoints_;
             Mat31 point = planePoses_[planeId].transform( samplePoints_.samplePoint() );
             point = transInvPose.transform(point);
             X_[t].push_back( point );//XXX this should go away, only PC on planes
-- 
2.43.0


From 03f63f96821b516e935a3678c6a802e45ce87390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:57 +0000
Subject: [PATCH 29/32] fix: gradient registration ignores time steps without
 points

A time step at which no plane has points divided by its zero number of
points, and the whole trajectory became NaN.
---
 src/PCRegistration/plane_registration.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PCRegistration/plane_registration.cpp b/src/PCRegistration/plane_registration.cpp
index 294d3a6..bbc0027 100644
--- a/src/PCRegistration/plane_registration.cpp
+++ b/src/PCRegistration/plane_registration.cpp
@@ -161,7 +161,8 @@ uint_t PlaneRegistration::solve_interpolate_gradient(bool singleIteration)
                 numberPoints += it->second->get_number_points(t);
             }
             // XXX this could be changed to time stamps later
-            accumulatedJacobian +=  (tau *  t  / numberPoints / numberPoses_) * jacobian;
+            if (numberPoints > 0.0)
+                accumulatedJacobian +=  (tau *  t  / numberPoints / numberPoses_) * jacobian;
 
         }
         // 3) update results Tf = exp(-dxi) * Tf (our convention, we expanded from the left)
-- 
2.43.0


From 8609dbc559f9cf1c58846a67c62b2fae90820db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:57 +0000
Subject: [PATCH 30/32] fix: full-trajectory gradient weighs each pose by its
 own number of points

The number of points of the last time step was used for every pose; when the
last time step had no points all the poses became NaN.
---
 src/PCRegistration/plane_registration.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/PCRegistration/plane_registration.cpp b/src/PCRegistration/plane_registration.cpp
index bbc0027..0ef27cc 100644
--- a/src/PCRegistration/plane_registration.cpp
+++ b/src/PCRegistration/plane_registration.cpp
@@ -224,14 +224,15 @@ uint_t PlaneRegistration::solve_gradient_all_poses(bool singleIteration)
                 jacobian.segment<6>(t*6) += it->second->calculate_gradient(t);
                 numberPoints += it->second->get_number_points(t);
             }
-
+            if (numberPoints > 0.0)
+                jacobian.segment<6>(t*6) /= numberPoints;
         }
         // 3) update results Tf = exp(-dxi) * Tf (our convention, we expanded from the left)
         // 3-1)
         Mat61 dxi;
         for (uint_t t = 1 ; t < numberPoses_; ++t)
         {
-            Mat61 dxi = -(alpha_ / numberPoints / numberPoses_ )*jacobian.segment<6>(t*6);
+            Mat61 dxi = -(alpha_ / numberPoses_ )*jacobian.segment<6>(t*6);
             trajectory_->at(t).update_lhs(dxi);
         }
         ++solveIters_;
-- 
2.43.0


From 32ab31c77c735338ce356ac52034dfa649ed11b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:57 +0000
Subject: [PATCH 31/32] fix: full-trajectory gradient honours singleIteration

---
 src/PCRegistration/plane_registration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PCRegistration/plane_registration.cpp b/src/PCRegistration/plane_registration.cpp
index 0ef27cc..fd368b7 100644
--- a/src/PCRegistration/plane_registration.cpp
+++ b/src/PCRegistration/plane_registration.cpp
@@ -92,7 +92,7 @@ uint_t PlaneRegistration::solve(SolveMode mode, bool singleIteration)
             return solve_initialize();
         case SolveMode::GRADIENT_ALL_POSES:
             time_profiles_.start();
-            solve_gradient_all_poses();
+            solve_gradient_all_poses(singleIteration);
             time_profiles_.stop();
             break;
         case SolveMode::GRADIENT_BENGIOS_NAG:
-- 
2.43.0


From 7bee4567e85918de2f09826f7fd35b5fb578b052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:48 +0000
Subject: [PATCH 32/32] fix: solve() runs the plain gradient mode

SolveMode::GRADIENT is handled by solve_interpolate_gradient but solve() left
it out of its cases and returned without doing anything.
---
 src/PCRegistration/plane_registration.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PCRegistration/plane_registration.cpp b/src/PCRegistration/plane_registration.cpp
index fd368b7..925fded 100644
--- a/src/PCRegistration/plane_registration.cpp
+++ b/src/PCRegistration/plane_registration.cpp
@@ -95,6 +95,7 @@ uint_t PlaneRegistration::solve(SolveMode mode, bool singleIteration)
             solve_gradient_all_poses(singleIteration);
             time_profiles_.stop();
             break;
+        case SolveMode::GRADIENT:
         case SolveMode::GRADIENT_BENGIOS_NAG:
             time_profiles_.start();
             solve_interpolate_gradient(singleIteration);
-- 
2.43.0

