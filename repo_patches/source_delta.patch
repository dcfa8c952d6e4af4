From a4f6152d6379975f5773a43383a09f784c04211a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:23 +0000
Subject: [PATCH 01/66] fix: Logger::push of a given variable did not compile
 (and always threw)

---
 include/state-observation/tools/logger.hxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/tools/logger.hxx b/include/state-observation/tools/logger.hxx
index f465474..6782e4a 100644
--- a/include/state-observation/tools/logger.hxx
+++ b/include/state-observation/tools/logger.hxx
@@ -36,20 +36,24 @@ namespace stateObservation
     template <typename T>
     void Logger::push(const T * address)
     {
-      Tmap::iterator i= logs_.find( * address );
+      Tmap::iterator i= logs_.find( address );
 
       if (i!=logs_.end())
+      {
         update_(i);
+      }
       else
+      {
         BOOST_ASSERT(false && "The logger cannot find the data to push, please use record function");
         throw std::invalid_argument
                 ("The logger cannot find the data, please use record function");
+      }
     }
 
     template <typename T>
     void Logger::push(const T & reference)
     {
-      push(*reference);
+      push(&reference);
     }
 
     template <typename T>
-- 
2.43.0


From 5381636bd8ee3bf95f762aebb486cca150afa15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:42 +0000
Subject: [PATCH 02/66] fix: CheckedItem::setAssertMessage did not compile for
 any instantiation

---
 include/state-observation/tools/definitions.hpp | 2 +-
 include/state-observation/tools/definitions.hxx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/tools/definitions.hpp b/include/state-observation/tools/definitions.hpp
index a9ed2ce..87dd387 100644
--- a/include/state-observation/tools/definitions.hpp
+++ b/include/state-observation/tools/definitions.hpp
@@ -306,7 +306,7 @@ public:
   /// set the value of the initialization check boolean
   inline void set(bool value);
 
-  void setAssertMessage(std::string s);
+  void setAssertMessage(const char * s);
   void setExceptionPtr(std::exception * e);
 
   /// allows to set the initialization boolean to true and give a reference
diff --git a/include/state-observation/tools/definitions.hxx b/include/state-observation/tools/definitions.hxx
index 6933f0e..385722b 100644
--- a/include/state-observation/tools/definitions.hxx
+++ b/include/state-observation/tools/definitions.hxx
@@ -142,7 +142,7 @@ inline void CheckedItem<T,lazy,alwaysCheck , assertion,eigenAlignedNew>::set(boo
 
 
 template <typename T, bool lazy, bool alwaysCheck , bool assertion, bool eigenAlignedNew>
-inline void CheckedItem<T,lazy,alwaysCheck , assertion,eigenAlignedNew>::setAssertMessage(std::string s)
+inline void CheckedItem<T,lazy,alwaysCheck , assertion,eigenAlignedNew>::setAssertMessage(const char * s)
 {
   assertMsg_.set(s);
 }
-- 
2.43.0


From 8d53e6bce3e095382ae81a7cab649326b04fe8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:42 +0000
Subject: [PATCH 03/66] fix: mergeRoll1Pitch1WithYaw2 was defined with another
 signature than declared

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 15b2688..9a08b4a 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -407,7 +407,7 @@ inline Matrix3 mergeTiltWithYaw(const Vector3 & Rtez, const Matrix3 & R2, const
   }
 }
 
-inline Matrix3 mergeRoll1Pitch1WithYaw2(const Matrix3 & R1, const Matrix3 & R2, const Vector3 v)
+inline Matrix3 mergeRoll1Pitch1WithYaw2(const Matrix3 & R1, const Matrix3 & R2, const Vector3 & v)
 {
   return mergeTiltWithYaw(R1.transpose() * Vector3::UnitZ(), R2, v);
 }
-- 
2.43.0


From 146b77c5b6aca4253d92cafa7344bccc4773582d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:53 +0000
Subject: [PATCH 04/66] fix: define regulateRotationVector, declared in the
 public header

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 9a08b4a..7847b90 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -119,6 +119,11 @@ inline Vector regulateOrientationVector(const Vector3 & v)
   }
 }
 
+inline Vector regulateRotationVector(const Vector3 & v)
+{
+  return regulateOrientationVector(v);
+}
+
 /// Transform the rotation vector into angle axis
 inline AngleAxis rotationVectorToAngleAxis(const Vector3 & v)
 {
-- 
2.43.0


From b4ff3d23a0549474359abc2de1e6e2f6b3717ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:53 +0000
Subject: [PATCH 05/66] fix: define
 KineticsObserver::setKinematicsProcessCovariance, declared in the public
 header

---
 src/kinetics-observer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 08bfdf0..750bce8 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1015,6 +1015,13 @@ void KineticsObserver::setKinematicsInitCovarianceDefault(const Matrix & P_kine)
   stateKinematicsInitCovMat_ = P_kine;
 }
 
+void KineticsObserver::setKinematicsProcessCovariance(const Matrix & Q_kine)
+{
+  Matrix Q = ekf_.getProcessCovariance();
+  setBlockStateCovariance<sizeStateKineTangent>(Q, Q_kine, kineIndexTangent());
+  ekf_.setProcessCovariance(Q);
+}
+
 void KineticsObserver::setGyroBiasStateCovariance(const Matrix3 & covMat, unsigned imuNumber)
 {
   Matrix P = ekf_.getStateCovariance();
-- 
2.43.0


From c12fce176cc70b56747d0941c12d5e3258a6d3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:08 +0000
Subject: [PATCH 06/66] fix: define the Jacobians at a given state declared by
 IMUElasticLocalFrameDynamicalSystem

---
 ...imu-elastic-local-frame-dynamical-system.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/imu-elastic-local-frame-dynamical-system.cpp b/src/imu-elastic-local-frame-dynamical-system.cpp
index 3523fd4..017956d 100644
--- a/src/imu-elastic-local-frame-dynamical-system.cpp
+++ b/src/imu-elastic-local-frame-dynamical-system.cpp
@@ -1053,6 +1053,15 @@ Vector IMUElasticLocalFrameDynamicalSystem::measureDynamics(const Vector & x, co
   return yk_;
 }
 
+stateObservation::Matrix IMUElasticLocalFrameDynamicalSystem::measureDynamicsJacobian(
+    const stateObservation::Vector & x,
+    const stateObservation::Vector & u,
+    TimeIndex k)
+{
+  measureDynamics(x, u, k);
+  return measureDynamicsJacobian();
+}
+
 stateObservation::Matrix IMUElasticLocalFrameDynamicalSystem::measureDynamicsJacobian()
 {
   op_.Jy.resize(getMeasurementSize(), getStateSize());
@@ -1143,6 +1152,14 @@ stateObservation::Matrix IMUElasticLocalFrameDynamicalSystem::measureDynamicsJac
   return op_.Jy;
 }
 
+stateObservation::Matrix IMUElasticLocalFrameDynamicalSystem::stateDynamicsJacobian(const stateObservation::Vector & x,
+                                                                                    const stateObservation::Vector & u,
+                                                                                    TimeIndex k)
+{
+  stateDynamics(x, u, k);
+  return stateDynamicsJacobian();
+}
+
 stateObservation::Matrix IMUElasticLocalFrameDynamicalSystem::stateDynamicsJacobian()
 {
   op_.Jx.resize(getStateSize(), getStateSize());
-- 
2.43.0


From fe28560ef7cae7c27bbff54b328f81e9e7069a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:44 +0000
Subject: [PATCH 07/66] fix: the copy of a Kalman filter used the arithmetics
 of the filter it was copied from

---
 .../state-observation/observer/kalman-filter-base.hpp  |  7 +++++++
 src/extended-kalman-filter.cpp                         |  6 +++---
 src/kalman-filter-base.cpp                             | 10 +++++-----
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/state-observation/observer/kalman-filter-base.hpp b/include/state-observation/observer/kalman-filter-base.hpp
index a4b7bab..2ddb977 100644
--- a/include/state-observation/observer/kalman-filter-base.hpp
+++ b/include/state-observation/observer/kalman-filter-base.hpp
@@ -375,8 +375,15 @@ protected:
     Matrix t;
   } oc_;
 
+  /// The user-defined arithmetics, null when the filter uses its own ones
   StateVectorArithmetics * arithm_;
 
+  /// The arithmetics to use. The filter does not store a pointer to itself in order to remain copyable
+  inline StateVectorArithmetics & arithmetics_()
+  {
+    return (arithm_ == 0x0) ? *this : *arithm_;
+  }
+
 public:
   EIGEN_MAKE_ALIGNED_OPERATOR_NEW
 };
diff --git a/src/extended-kalman-filter.cpp b/src/extended-kalman-filter.cpp
index 79e7cde..8443f40 100644
--- a/src/extended-kalman-filter.cpp
+++ b/src/extended-kalman-filter.cpp
@@ -166,11 +166,11 @@ KalmanFilterBase::Amatrix // ExtendedKalmanFilter<n,m,p>::Amatrix does not work
     opt.dx_.setZero();
     opt.dx_[i] = dx[i];
 
-    arithm_->stateSum(this->x_(), opt.dx_, opt.x_);
+    arithmetics_().stateSum(this->x_(), opt.dx_, opt.x_);
 
     opt.xp_ = f_->stateDynamics(opt.x_, opt.u_, k);
 
-    arithm_->stateDifference(opt.xp_, xbar_(), opt.dx_);
+    arithmetics_().stateDifference(opt.xp_, xbar_(), opt.dx_);
 
     opt.dx_ /= dx[i];
 
@@ -197,7 +197,7 @@ KalmanFilterBase::Cmatrix ExtendedKalmanFilter::getCMatrixFD(const Vector & dx)
     opt.dx_.setZero();
     opt.dx_[i] = dx[i];
 
-    arithm_->stateSum(xbar_(), opt.dx_, opt.xp_);
+    arithmetics_().stateSum(xbar_(), opt.dx_, opt.xp_);
 
     opt.yp_ = simulateSensor_(opt.xp_, k + 1);
 
diff --git a/src/kalman-filter-base.cpp b/src/kalman-filter-base.cpp
index c108803..215d917 100644
--- a/src/kalman-filter-base.cpp
+++ b/src/kalman-filter-base.cpp
@@ -12,15 +12,15 @@
 namespace stateObservation
 {
 
-KalmanFilterBase::KalmanFilterBase() : nt_(0), arithm_(this) {}
+KalmanFilterBase::KalmanFilterBase() : nt_(0), arithm_(0x0) {}
 
 KalmanFilterBase::KalmanFilterBase(Index n, Index m, Index p)
-: ZeroDelayObserver(n, m, p), nt_(n), mt_(m), arithm_(this)
+: ZeroDelayObserver(n, m, p), nt_(n), mt_(m), arithm_(0x0)
 {
 }
 
 KalmanFilterBase::KalmanFilterBase(Index n, Index nt, Index m, Index mt, Index p)
-: ZeroDelayObserver(n, m, p), nt_(nt), mt_(mt), arithm_(this)
+: ZeroDelayObserver(n, m, p), nt_(nt), mt_(mt), arithm_(0x0)
 {
 }
 
@@ -122,7 +122,7 @@ ObserverBase::StateVector KalmanFilterBase::oneStepEstimation_()
   oc_.pbar.noalias() = q_ + a_ * (pr_ * a_.transpose());
 
   // innovation Measurements
-  arithm_->measurementDifference(this->y_[k + 1], ybar_(), oc_.inoMeas);
+  arithmetics_().measurementDifference(this->y_[k + 1], ybar_(), oc_.inoMeas);
   oc_.inoMeasCov.noalias() = r_ + c_ * (oc_.pbar * c_.transpose());
 
   Index & measurementTangentSize = mt_;
@@ -139,7 +139,7 @@ ObserverBase::StateVector KalmanFilterBase::oneStepEstimation_()
 
   // update
 
-  arithm_->stateSum(xbar_(), innovation_, oc_.xhat);
+  arithmetics_().stateSum(xbar_(), innovation_, oc_.xhat);
 
 #ifdef VERBOUS_KALMANFILTER
   Eigen::IOFormat CleanFmt(2, 0, " ", "\n", "", "");
-- 
2.43.0


From fe3340f190431561e3ab33de79157b5ec5f352c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:44 +0000
Subject: [PATCH 08/66] fix: default-constructed Kalman filters left the
 measurement tangent size uninitialised

---
 src/kalman-filter-base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kalman-filter-base.cpp b/src/kalman-filter-base.cpp
index 215d917..00b2030 100644
--- a/src/kalman-filter-base.cpp
+++ b/src/kalman-filter-base.cpp
@@ -12,7 +12,7 @@
 namespace stateObservation
 {
 
-KalmanFilterBase::KalmanFilterBase() : nt_(0), arithm_(0x0) {}
+KalmanFilterBase::KalmanFilterBase() : nt_(0), mt_(0), arithm_(0x0) {}
 
 KalmanFilterBase::KalmanFilterBase(Index n, Index m, Index p)
 : ZeroDelayObserver(n, m, p), nt_(n), mt_(m), arithm_(0x0)
-- 
2.43.0


From 794c6bb8dbcf4ebd32ae3a8d501994366bdbedb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:48 +0000
Subject: [PATCH 09/66] fix: the implicit copy of a KineticsObserver kept
 running the filter of the original

---
 .../dynamics-estimators/kinetics-observer.hpp                 | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/state-observation/dynamics-estimators/kinetics-observer.hpp b/include/state-observation/dynamics-estimators/kinetics-observer.hpp
index e776636..d6742f4 100644
--- a/include/state-observation/dynamics-estimators/kinetics-observer.hpp
+++ b/include/state-observation/dynamics-estimators/kinetics-observer.hpp
@@ -61,6 +61,10 @@ public:
   ///
   virtual ~KineticsObserver();
 
+  /// The internal filter refers to this object, the observer cannot be copied
+  KineticsObserver(const KineticsObserver &) = delete;
+  KineticsObserver & operator=(const KineticsObserver &) = delete;
+
   /// @}
 
   // ////////////////////////////////////////////////////////////
-- 
2.43.0


From 7b485acf48460dbc0f21d0365a60f00f9dc552a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:56 +0000
Subject: [PATCH 10/66] fix: the predictions of the extended Kalman filter were
 reused after the state, the input or the model had been replaced

---
 src/extended-kalman-filter.cpp | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/src/extended-kalman-filter.cpp b/src/extended-kalman-filter.cpp
index 8443f40..bd04f3c 100644
--- a/src/extended-kalman-filter.cpp
+++ b/src/extended-kalman-filter.cpp
@@ -85,32 +85,25 @@ void ExtendedKalmanFilter::setDirectInputStateFeedthrough(bool b)
 
 ObserverBase::StateVector ExtendedKalmanFilter::prediction_(TimeIndex k)
 {
-  if(!xbar_.isSet() || xbar_.getTime() != k)
+  if((p_ > 0) && (directInputStateProcessFeedthrough_))
   {
-    if((p_ > 0) && (directInputStateProcessFeedthrough_))
-    {
 
-      BOOST_ASSERT(this->u_.size() > 0 && this->u_.checkIndex(k - 1) && "ERROR: The input vector is not set");
-      opt.u_ = this->u_[k - 1];
-    }
-    else
-    {
-      opt.u_ = inputVectorZero();
-    }
-    BOOST_ASSERT(f_ != 0x0 && "ERROR: The Kalman filter functor is not set");
-    xbar_.set(f_->stateDynamics(this->x_(), opt.u_, this->x_.getTime()), k);
+    BOOST_ASSERT(this->u_.size() > 0 && this->u_.checkIndex(k - 1) && "ERROR: The input vector is not set");
+    opt.u_ = this->u_[k - 1];
   }
+  else
+  {
+    opt.u_ = inputVectorZero();
+  }
+  BOOST_ASSERT(f_ != 0x0 && "ERROR: The Kalman filter functor is not set");
+  xbar_.set(f_->stateDynamics(this->x_(), opt.u_, this->x_.getTime()), k);
 
   return xbar_();
 }
 
 ObserverBase::MeasureVector ExtendedKalmanFilter::predictSensor_(TimeIndex k)
 {
-
-  if(!this->ybar_.isSet() || this->ybar_.getTime() != k)
-  {
-    ybar_.set(simulateSensor_(xbar_(), k), k);
-  }
+  ybar_.set(simulateSensor_(xbar_(), k), k);
 
   return ybar_();
 }
-- 
2.43.0


From 82a6715c3a1f63349030ce67cd98003393ee3ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:29 +0000
Subject: [PATCH 11/66] fix: without inputs, the simulated measurement of the
 extended Kalman filter used the last input vector it had held

---
 src/extended-kalman-filter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/extended-kalman-filter.cpp b/src/extended-kalman-filter.cpp
index bd04f3c..52fec36 100644
--- a/src/extended-kalman-filter.cpp
+++ b/src/extended-kalman-filter.cpp
@@ -131,6 +131,10 @@ must set directInputOutputFeedthrough to 'false' in the constructor");
       opt.u_ = inputVectorZero();
     }
   }
+  else
+  {
+    opt.u_ = inputVectorZero();
+  }
 
   return f_->measureDynamics(x, opt.u_, k);
 }
-- 
2.43.0


From f1efbd8c9dd85d847d1e09a5d7d1fb77acfce91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:29 +0000
Subject: [PATCH 12/66] fix: the finite difference jacobian of the measurement
 ignored the tangent space of the measurements

---
 .../state-observation/observer/extended-kalman-filter.hpp | 1 +
 src/extended-kalman-filter.cpp                            | 8 ++++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/state-observation/observer/extended-kalman-filter.hpp b/include/state-observation/observer/extended-kalman-filter.hpp
index 73a9019..e2ee938 100644
--- a/include/state-observation/observer/extended-kalman-filter.hpp
+++ b/include/state-observation/observer/extended-kalman-filter.hpp
@@ -146,6 +146,7 @@ protected:
     ObserverBase::StateVector dx_;
     ObserverBase::StateVector xp_;
     ObserverBase::MeasureVector yp_;
+    KalmanFilterBase::MeasureVectorTan dy_;
 
   } opt;
 
diff --git a/src/extended-kalman-filter.cpp b/src/extended-kalman-filter.cpp
index 52fec36..78479d7 100644
--- a/src/extended-kalman-filter.cpp
+++ b/src/extended-kalman-filter.cpp
@@ -181,7 +181,7 @@ KalmanFilterBase::Cmatrix ExtendedKalmanFilter::getCMatrixFD(const Vector & dx)
 {
   TimeIndex k = this->x_.getTime();
 
-  opt.c_.resize(m_, nt_);
+  opt.c_.resize(mt_, nt_);
 
   updateStateAndMeasurementPrediction();
 
@@ -198,10 +198,10 @@ KalmanFilterBase::Cmatrix ExtendedKalmanFilter::getCMatrixFD(const Vector & dx)
 
     opt.yp_ = simulateSensor_(opt.xp_, k + 1);
 
-    opt.yp_ -= ybar_();
-    opt.yp_ /= dx[i];
+    arithmetics_().measurementDifference(opt.yp_, ybar_(), opt.dy_);
+    opt.dy_ /= dx[i];
 
-    opt.c_.col(i) = opt.yp_;
+    opt.c_.col(i) = opt.dy_;
   }
 
   return opt.c_;
-- 
2.43.0


From fb71eca7bcbf2787015a89b6db0b4ea044448a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:29 +0000
Subject: [PATCH 13/66] fix: simulating a measurement overwrote the last
 predicted measurement of the linear Kalman filter

---
 src/linear-kalman-filter.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/linear-kalman-filter.cpp b/src/linear-kalman-filter.cpp
index af5d369..621d880 100644
--- a/src/linear-kalman-filter.cpp
+++ b/src/linear-kalman-filter.cpp
@@ -61,13 +61,12 @@ ObserverBase::MeasureVector LinearKalmanFilter::simulateSensor_(const StateVecto
                     "(the measurement at time k needs the input at time k which was not given) "
                     "if you don't need the input in the computation of measurement, you "
                     "must set D matrix to zero");
-    ybar_.set(c_ * x + d_ * u_[k], k);
+    return c_ * x + d_ * u_[k];
   }
   else
   {
-    ybar_.set(c_ * x, k);
+    return c_ * x;
   }
-  return ybar_();
 }
 
 LinearKalmanFilter::Bmatrix LinearKalmanFilter::getBmatrixConstant(double c) const
-- 
2.43.0


From 5d21f2dca703348c35db8b026bddbce39e8a8364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:06 +0000
Subject: [PATCH 14/66] fix: IndexedMatrixArrayT::setLastIndex set the last
 index two samples too early

---
 include/state-observation/tools/definitions.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/definitions.hxx b/include/state-observation/tools/definitions.hxx
index 385722b..76a2c4d 100644
--- a/include/state-observation/tools/definitions.hxx
+++ b/include/state-observation/tools/definitions.hxx
@@ -355,7 +355,7 @@ inline TimeIndex IndexedMatrixArrayT<MatrixType, Allocator>::getFirstIndex()cons
 template <typename MatrixType, typename Allocator>
 inline TimeIndex IndexedMatrixArrayT<MatrixType, Allocator>::setLastIndex(int index)
 {
-  return k_=index-(v_.size()+1);
+  return k_=index-TimeIndex(v_.size())+1;
 }
 
 template <typename MatrixType, typename Allocator>
-- 
2.43.0


From 1f79afb9951c40a9164542f19acee09df3e866a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:06 +0000
Subject: [PATCH 15/66] fix: IndexedMatrixArrayT::truncateBefore removed the
 sample to keep last and renumbered the samples when there was nothing to
 remove

---
 include/state-observation/tools/definitions.hxx | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/state-observation/tools/definitions.hxx b/include/state-observation/tools/definitions.hxx
index 76a2c4d..2aee6de 100644
--- a/include/state-observation/tools/definitions.hxx
+++ b/include/state-observation/tools/definitions.hxx
@@ -476,14 +476,12 @@ void IndexedMatrixArrayT<MatrixType, Allocator>::truncateBefore(TimeIndex time)
 {
   if (v_.size()>0)
   {
-    if (time < getLastIndex())
+    if (time <= getLastIndex())
     {
       for (TimeIndex i=getFirstIndex(); i<time ; ++i)
       {
-        v_.pop_front();
+        popFront();
       }
-
-      setFirstIndex(time);
     }
     else
     {
-- 
2.43.0


From 5c9069d79ca5a611ab905365efe3863a75393940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:06 +0000
Subject: [PATCH 16/66] fix: IndexedMatrixArrayT::readFromFile appended a
 matrix which is not in the file

---
 include/state-observation/tools/definitions.hxx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/tools/definitions.hxx b/include/state-observation/tools/definitions.hxx
index 2aee6de..fd34265 100644
--- a/include/state-observation/tools/definitions.hxx
+++ b/include/state-observation/tools/definitions.hxx
@@ -535,8 +535,13 @@ void IndexedMatrixArrayT<MatrixType, Allocator>::readFromFile(const char * filen
           }
         }
 
-        setValue(m,k);
-        ++k;
+        if (f.fail())
+          continuation=false;
+        else
+        {
+          setValue(m,k);
+          ++k;
+        }
       }
     }
   }
-- 
2.43.0


From f9e3508b5069730b9715e924678acde336fff291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:06 +0000
Subject: [PATCH 17/66] fix: setting the state of an observer in the past did
 not discard the inputs and measurements of the abandoned times

---
 src/zero-delay-observer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zero-delay-observer.cpp b/src/zero-delay-observer.cpp
index 3c595aa..b207e0f 100644
--- a/src/zero-delay-observer.cpp
+++ b/src/zero-delay-observer.cpp
@@ -7,9 +7,11 @@ void ZeroDelayObserver::setState(const ObserverBase::StateVector & x_k, TimeInde
 {
   BOOST_ASSERT(checkStateVector(x_k) && "The size of the state vector is incorrect");
 
+  bool backInTime = x_.isSet() && k < getCurrentTime();
+
   x_.set(x_k, k);
 
-  if(k < getCurrentTime())
+  if(backInTime)
   {
     y_.clear();
     u_.clear();
-- 
2.43.0


From c111d030d92128fd25031cb9aeb8bb376881e960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:06 +0000
Subject: [PATCH 18/66] fix: the time of the last input was refused when no
 measurement was pending

---
 src/zero-delay-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zero-delay-observer.cpp b/src/zero-delay-observer.cpp
index b207e0f..79ceddf 100644
--- a/src/zero-delay-observer.cpp
+++ b/src/zero-delay-observer.cpp
@@ -189,7 +189,7 @@ TimeSize ZeroDelayObserver::getInputsNumber() const
 TimeIndex ZeroDelayObserver::getInputTime() const
 {
 
-  BOOST_ASSERT(y_.size() > 0 && "ERROR: There is no measurements registered (past measurements are erased)");
+  BOOST_ASSERT(u_.size() > 0 && "ERROR: There is no inputs registered (past inputs are erased)");
   return u_.getLastIndex();
 }
 
-- 
2.43.0


From b2649709408fa9328ceadb4cb9a7b5aa96d2b411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:48 +0000
Subject: [PATCH 19/66] fix: the simulator ignored an input given again for the
 same time

---
 src/dynamical-system-simulator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamical-system-simulator.cpp b/src/dynamical-system-simulator.cpp
index 22058ad..56a1657 100644
--- a/src/dynamical-system-simulator.cpp
+++ b/src/dynamical-system-simulator.cpp
@@ -28,7 +28,7 @@ void DynamicalSystemSimulator::setState(const Vector & x, TimeIndex k)
 
 void DynamicalSystemSimulator::setInput(const Vector & u, TimeIndex k)
 {
-  u_.insert(std::pair<TimeIndex, Vector>(k, u));
+  u_[k] = u;
 }
 
 Vector DynamicalSystemSimulator::getMeasurement(TimeIndex k)
-- 
2.43.0


From 6a71465ef4dd1907021491c071fc7511facde9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:48 +0000
Subject: [PATCH 20/66] fix: the simulator kept the measurements of the states
 it had discarded

---
 src/dynamical-system-simulator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynamical-system-simulator.cpp b/src/dynamical-system-simulator.cpp
index 56a1657..0ae3a5e 100644
--- a/src/dynamical-system-simulator.cpp
+++ b/src/dynamical-system-simulator.cpp
@@ -23,6 +23,7 @@ void DynamicalSystemSimulator::setState(const Vector & x, TimeIndex k)
                && "ERROR: Only consecutive states can be set. If you want to restart a new dynamics please call "
                   "resetDynamics before");
   x_.truncateAfter(k - 1);
+  y_.truncateAfter(k - 1);
   x_.setValue(x, k);
 }
 
-- 
2.43.0


From bdae56e3e71c8f5d3c53b831fc3d1c4896c093ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:48 +0000
Subject: [PATCH 21/66] fix: the simulator did not simulate far enough to
 provide a measurement

---
 src/dynamical-system-simulator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamical-system-simulator.cpp b/src/dynamical-system-simulator.cpp
index 0ae3a5e..3b5a1a8 100644
--- a/src/dynamical-system-simulator.cpp
+++ b/src/dynamical-system-simulator.cpp
@@ -34,8 +34,8 @@ void DynamicalSystemSimulator::setInput(const Vector & u, TimeIndex k)
 
 Vector DynamicalSystemSimulator::getMeasurement(TimeIndex k)
 {
-  BOOST_ASSERT((y_.size() == 0 || y_.getFirstIndex() < k) && "ERROR: Only future measurements can be obtained");
-  if(y_.getNextIndex() < k) simulateDynamicsTo(k);
+  BOOST_ASSERT((y_.size() == 0 || y_.getFirstIndex() <= k) && "ERROR: Only future measurements can be obtained");
+  if(y_.getNextIndex() <= k) simulateDynamicsTo(k + 1);
 
   return y_[k];
 }
-- 
2.43.0


From e3cacce6291e95ea15fae5ad962aa294c140c9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:48 +0000
Subject: [PATCH 22/66] fix: the simulator did not simulate far enough to
 provide a state

---
 src/dynamical-system-simulator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamical-system-simulator.cpp b/src/dynamical-system-simulator.cpp
index 3b5a1a8..2d1d61f 100644
--- a/src/dynamical-system-simulator.cpp
+++ b/src/dynamical-system-simulator.cpp
@@ -43,7 +43,7 @@ Vector DynamicalSystemSimulator::getMeasurement(TimeIndex k)
 Vector DynamicalSystemSimulator::getState(TimeIndex k)
 {
   BOOST_ASSERT((x_.size() == 0 || x_.getFirstIndex() <= k) && "ERROR: Only future measurements can be obtained");
-  if(x_.getLastIndex() < TimeIndex(k)) simulateDynamicsTo(k - 1);
+  if(x_.getLastIndex() < TimeIndex(k)) simulateDynamicsTo(k);
 
   return x_[k];
 }
-- 
2.43.0


From 398ca81a590e343eaf36a5d392610efac4e6106c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:32 +0000
Subject: [PATCH 23/66] fix: the bias of the DCM estimator was clamped to an
 uninitialised value along an axis without limit

---
 src/lipm-dcm-estimator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lipm-dcm-estimator.cpp b/src/lipm-dcm-estimator.cpp
index a624a09..d074535 100644
--- a/src/lipm-dcm-estimator.cpp
+++ b/src/lipm-dcm-estimator.cpp
@@ -179,7 +179,7 @@ void LipmDcmEstimator::update()
   if(biasLimit_.x() > 0 || biasLimit_.y() > 0)
   {
     Vector2 localBias = getLocalBias();
-    Vector2 clampedLocalBias;
+    Vector2 clampedLocalBias = localBias;
     if(biasLimit_.x() > 0)
     {
       clampedLocalBias.x() = tools::clampScalar(localBias.x(), biasLimit_.x());
-- 
2.43.0


From 02c1fb749e12c650fa719546a8afaf4b26adc08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:09 +0000
Subject: [PATCH 24/66] fix: the default IMU covariance had uninitialised
 off-diagonal blocks

---
 src/model-base-ekf-flex-estimator-imu.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index 82eb8e2..2e37a11 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -80,7 +80,7 @@ Matrix ModelBaseEKFFlexEstimatorIMU::getDefaultQ()
 
 Matrix6 ModelBaseEKFFlexEstimatorIMU::getDefaultRIMU()
 {
-  Matrix6 R;
+  Matrix6 R = Matrix6::Zero();
 
   R.block<3, 3>(0, 0) = Matrix3::Identity() * 1.e-6; // accelerometer
   R.block<3, 3>(3, 3) = Matrix3::Identity() * 1.e-6; // gyrometer
-- 
2.43.0


From 842fb90d66e9cd08c23e1860b5353e2d59dc296f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:13 +0000
Subject: [PATCH 25/66] fix: finiteTimeAccControl left the first component of
 its result uninitialised

---
 include/state-observation/tools/miscellaneous-algorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/tools/miscellaneous-algorithms.hpp b/include/state-observation/tools/miscellaneous-algorithms.hpp
index 809bbd7..438c2c1 100644
--- a/include/state-observation/tools/miscellaneous-algorithms.hpp
+++ b/include/state-observation/tools/miscellaneous-algorithms.hpp
@@ -162,7 +162,7 @@ inline Vector STATE_OBSERVATION_DLLAPI finiteTimeAccControl(const Vector & x,
                                                             double kv = -1)
 {
   Vector xdd(x.size());
-  for(Index i = 1; i < x.size(); ++i)
+  for(Index i = 0; i < x.size(); ++i)
   {
     xdd(i) = finiteTimeAccControl(x(i), xd(i), kp, kv);
   }
-- 
2.43.0


From 18810b3792deda287cb6ee930b099d7bc99e618e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:41 +0000
Subject: [PATCH 26/66] fix: the elasticity of BidimElasticInvPendulum was
 uninitialised until set

---
 src/bidim-elastic-inv-pendulum-dyn-sys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bidim-elastic-inv-pendulum-dyn-sys.cpp b/src/bidim-elastic-inv-pendulum-dyn-sys.cpp
index 032695e..ae77fd9 100644
--- a/src/bidim-elastic-inv-pendulum-dyn-sys.cpp
+++ b/src/bidim-elastic-inv-pendulum-dyn-sys.cpp
@@ -5,7 +5,7 @@ namespace stateObservation
 
 using stateObservation::cst::gravityConstant;
 
-BidimElasticInvPendulum::BidimElasticInvPendulum() : m_(1), h_(1), processNoise_(0x0), dt_(1)
+BidimElasticInvPendulum::BidimElasticInvPendulum() : k_(1), m_(1), h_(1), processNoise_(0x0), dt_(1)
 {
 #ifdef STATEOBSERVATION_VERBOUS_CONSTRUCTORS
   std::cout << std::endl << "IMUFixedContactDynamicalSystem Constructor" << std::endl;
-- 
2.43.0


From 99efc01377baa09958bc1c7b60b8413272d2b317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:25 +0000
Subject: [PATCH 27/66] fix: the center of mass of a KineticsObserver was
 uninitialised until set, unlike its derivatives

---
 src/kinetics-observer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 750bce8..79036f7 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -163,6 +163,7 @@ KineticsObserver::KineticsObserver(unsigned maxContacts, unsigned maxNumberOfIMU
 
   I_.set(Matrix3::Identity(), k_data_);
   Id_.set(Matrix3::Zero(), k_data_);
+  com_.set(Vector3::Zero(), k_data_);
   comd_.set(Vector3::Zero(), k_data_);
   comdd_.set(Vector3::Zero(), k_data_);
   sigma_.set(Vector3::Zero(), k_data_);
-- 
2.43.0


From fc5b7d04d2ed1822d5093e0914a745f86525c607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:06 +0000
Subject: [PATCH 28/66] fix: the signal of a sensor was extracted with its size
 as position, and its position was uninitialised

---
 .../dynamics-estimators/kinetics-observer.hpp                 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/state-observation/dynamics-estimators/kinetics-observer.hpp b/include/state-observation/dynamics-estimators/kinetics-observer.hpp
index d6742f4..e19cdca 100644
--- a/include/state-observation/dynamics-estimators/kinetics-observer.hpp
+++ b/include/state-observation/dynamics-estimators/kinetics-observer.hpp
@@ -846,7 +846,7 @@ public:
 protected:
   struct Sensor
   {
-    Sensor(int signalSize) : size(signalSize), time(0) {}
+    Sensor(int signalSize) : measIndex(0), size(signalSize), time(0) {}
     virtual ~Sensor() {}
     int measIndex;
     int size;
@@ -854,7 +854,7 @@ protected:
 
     inline Vector extractFromVector(const Vector & v)
     {
-      return v.segment(size, measIndex);
+      return v.segment(measIndex, size);
     }
   };
 
-- 
2.43.0


From 308f9c8cca76148e8907d88f48ff3a2235f82f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:41 +0000
Subject: [PATCH 29/66] fix: with a process noise, the prediction of the
 flexibility model was the one of the last Jacobian

---
 src/imu-elastic-local-frame-dynamical-system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imu-elastic-local-frame-dynamical-system.cpp b/src/imu-elastic-local-frame-dynamical-system.cpp
index 017956d..7186ad9 100644
--- a/src/imu-elastic-local-frame-dynamical-system.cpp
+++ b/src/imu-elastic-local-frame-dynamical-system.cpp
@@ -907,7 +907,7 @@ Vector IMUElasticLocalFrameDynamicalSystem::stateDynamics(const Vector & x, cons
   }
 
   if(processNoise_ != 0x0)
-    return processNoise_->getNoisy(op_.xk1);
+    return processNoise_->getNoisy(xk1_);
   else
     return xk1_;
 }
-- 
2.43.0


From dbca3d22fea724f6a5f926f3d3d93b1b8a5f715f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:56 +0000
Subject: [PATCH 30/66] fix: updating kinematics used wrong factors for the
 acceleration, the opposite rotation, and lost the angular acceleration

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index 7847b90..ea16890 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -1375,7 +1375,7 @@ inline const Kinematics & Kinematics::update(const Kinematics & newValue, double
         {
           if(posMethod == useAcceleration)
           {
-            thisPos() += thisAcc() * dt * dt / 0.5;
+            thisPos() += thisAcc() * dt * dt / 2;
           }
         }
       }
@@ -1534,13 +1534,13 @@ inline const Kinematics & Kinematics::update(const Kinematics & newValue, double
     {
       if(accMethod == useOrientation) // then velocity cannot use accelerations
       {
-        thisAcc = 2 * newOri.differentiate(thisOri) / (dt * dt);
+        thisAcc = 2 * thisOri.differentiate(newOri) / (dt * dt);
       }
     }
 
     if(velMethod == useOrientation) // then position cannot use velocity
     {
-      if(accMethod == useVelAndAcc)
+      if(accMethod == useOriAndVel) // use orientation and velocity to get the accelerations
       {
         thisAcc = -thisVel();
         thisVel = thisOri.differentiate(newOri) / dt;
@@ -1573,7 +1573,7 @@ inline const Kinematics & Kinematics::update(const Kinematics & newValue, double
         {
           if(posMethod == useAcceleration)
           {
-            thisOri.integrate(thisAcc() * dt * dt / 0.5);
+            thisOri.integrate(thisAcc() * dt * dt / 2);
           }
         }
       }
-- 
2.43.0


From ef30e27472ffaeb5f59aa3a782cea0836b79f449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:56 +0000
Subject: [PATCH 31/66] fix: the Coriolis term of the bidimensional elastic
 pendulum used its height instead of its position

---
 src/bidim-elastic-inv-pendulum-dyn-sys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bidim-elastic-inv-pendulum-dyn-sys.cpp b/src/bidim-elastic-inv-pendulum-dyn-sys.cpp
index ae77fd9..a20b134 100644
--- a/src/bidim-elastic-inv-pendulum-dyn-sys.cpp
+++ b/src/bidim-elastic-inv-pendulum-dyn-sys.cpp
@@ -33,7 +33,7 @@ Vector BidimElasticInvPendulum::stateDynamics(const Vector & x, const Vector & u
   double thetadot = x[3];
   double thetadotdot = (1 / (m_ * (p * p + h_ * h_)))
                        * (-k_ * theta - m_ * gravityConstant * (cos(theta) * p - sin(theta) * h_)
-                          + m_ * (h_ * pdotdot - 2 * thetadot * (h_ * pdot)));
+                          + m_ * (h_ * pdotdot - 2 * thetadot * (p * pdot)));
 
   xk1[0] = p + dt_ * pdot;
   xk1[1] = theta + dt_ * thetadot;
-- 
2.43.0


From fb6085097eba4288bc8b934538bd24a2582756ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:51 +0000
Subject: [PATCH 32/66] fix: a sensor with concatenated inputs aborted when its
 noisy measurement was asked

---
 src/algebraic-sensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebraic-sensor.cpp b/src/algebraic-sensor.cpp
index 09affd5..61ee98d 100644
--- a/src/algebraic-sensor.cpp
+++ b/src/algebraic-sensor.cpp
@@ -67,7 +67,7 @@ Vector AlgebraicSensor::computeNoisyMeasurement_()
 {
   if(!storedNoiselessMeasurement_)
   {
-    BOOST_ASSERT(checkStateVector(state_) && "The state is not set or incorrectly set");
+    BOOST_ASSERT(state_.rows() == getStateSize_() && "The state is not set or incorrectly set");
 
     if(concat_ > 0)
       noiselessMeasurement_ << computeNoiselessMeasurement_(), directInputToOutput_;
-- 
2.43.0


From e1bed03ce7af5312fd4e584062c6c43f0cef2c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:25 +0000
Subject: [PATCH 33/66] fix: setting the error of the DCM measurements of the
 DCM estimators had no effect

---
 src/lipm-dcm-estimator.cpp        | 4 ++--
 src/unidim-lipm-dcm-estimator.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lipm-dcm-estimator.cpp b/src/lipm-dcm-estimator.cpp
index d074535..4c9aa75 100644
--- a/src/lipm-dcm-estimator.cpp
+++ b/src/lipm-dcm-estimator.cpp
@@ -169,8 +169,8 @@ void LipmDcmEstimator::setZmpMeasureErrorStd(double std)
 
 void LipmDcmEstimator::setDcmMeasureErrorStd(double std)
 {
-  Matrix2 R;
-  R = dblToSqDiag(std);
+  R_ = dblToSqDiag(std);
+  filter_.setMeasurementCovariance(R_);
 }
 
 void LipmDcmEstimator::update()
diff --git a/src/unidim-lipm-dcm-estimator.cpp b/src/unidim-lipm-dcm-estimator.cpp
index ee7c751..b7bb0e0 100644
--- a/src/unidim-lipm-dcm-estimator.cpp
+++ b/src/unidim-lipm-dcm-estimator.cpp
@@ -162,8 +162,8 @@ void UnidimLipmDcmEstimator::setZmpMeasureErrorStd(double std)
 
 void UnidimLipmDcmEstimator::setDcmMeasureErrorStd(double std)
 {
-  Matrix1 R;
-  R(0, 0) = square(std);
+  R_ << square(std);
+  filter_.setMeasurementCovariance(R_);
 }
 
 void UnidimLipmDcmEstimator::setInputs(double dcm, double zmp)
-- 
2.43.0


From 2695bdc35bb43f4171c743e853dcb7e14ccef9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:00 +0000
Subject: [PATCH 34/66] fix: the bias drift given to the DCM estimators ignored
 the sampling time and was forgotten by the other setters

---
 src/lipm-dcm-estimator.cpp        | 4 ++--
 src/unidim-lipm-dcm-estimator.cpp | 5 ++---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/lipm-dcm-estimator.cpp b/src/lipm-dcm-estimator.cpp
index 4c9aa75..0fd3d38 100644
--- a/src/lipm-dcm-estimator.cpp
+++ b/src/lipm-dcm-estimator.cpp
@@ -132,9 +132,9 @@ void LipmDcmEstimator::setBias(const Vector2 & bias, const Vector2 & uncertainty
 
 void LipmDcmEstimator::setBiasDriftPerSecond(double driftPerSecond)
 {
+  biasDriftStd_ = driftPerSecond;
   /// update the corresponding part in the process noise matrix
-  Q_.bottomRightCorner<2, 2>() = dblToSqDiag(driftPerSecond);
-  filter_.setProcessCovariance(Q_);
+  updateMatricesABQ_();
 }
 
 void LipmDcmEstimator::setBiasLimit(const Vector2 & biasLimit)
diff --git a/src/unidim-lipm-dcm-estimator.cpp b/src/unidim-lipm-dcm-estimator.cpp
index b7bb0e0..ccb78d2 100644
--- a/src/unidim-lipm-dcm-estimator.cpp
+++ b/src/unidim-lipm-dcm-estimator.cpp
@@ -130,10 +130,9 @@ void UnidimLipmDcmEstimator::setBias(double bias, double uncertainty)
 
 void UnidimLipmDcmEstimator::setBiasDriftPerSecond(double driftPerSecond)
 {
-  Matrix2 Q = filter_.getProcessCovariance();
+  biasDriftStd_ = driftPerSecond;
   /// update the corresponding part in the process noise matrix
-  Q(1, 1) = square(driftPerSecond);
-  filter_.setProcessCovariance(Q);
+  updateMatricesABQ_();
 }
 
 void UnidimLipmDcmEstimator::setUnbiasedDCM(double dcm)
-- 
2.43.0


From 0871f93991ef9bfc3e9a8f65e5765c1d94bff407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:37 +0000
Subject: [PATCH 35/66] fix: clamping the bias of the DCM estimator corrected
 the DCM in the local frame

---
 src/lipm-dcm-estimator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lipm-dcm-estimator.cpp b/src/lipm-dcm-estimator.cpp
index 0fd3d38..d9362e1 100644
--- a/src/lipm-dcm-estimator.cpp
+++ b/src/lipm-dcm-estimator.cpp
@@ -190,7 +190,7 @@ void LipmDcmEstimator::update()
     }
 
     setBias(previousOrientation_ * clampedLocalBias);
-    setUnbiasedDCM(getUnbiasedDCM() + localBias - clampedLocalBias);
+    setUnbiasedDCM(getUnbiasedDCM() + previousOrientation_ * (localBias - clampedLocalBias));
   }
 }
 
-- 
2.43.0


From 30d4b2fb850c0dc8c9f5c2aac6a22bef35d1c42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:12 +0000
Subject: [PATCH 36/66] fix: the first two inputs of the DCM estimator were
 processed together, with the rotation of the second

---
 src/lipm-dcm-estimator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lipm-dcm-estimator.cpp b/src/lipm-dcm-estimator.cpp
index d9362e1..697064a 100644
--- a/src/lipm-dcm-estimator.cpp
+++ b/src/lipm-dcm-estimator.cpp
@@ -198,7 +198,7 @@ void LipmDcmEstimator::setInputs(const Vector2 & dcm, const Vector2 & zmp, const
 {
   if(filter_.stateIsSet())
   {
-    if(filter_.getMeasurementsNumber() > 1)
+    if(filter_.getMeasurementsNumber() > 0 && filter_.getMeasurementTime() > filter_.getCurrentTime())
     {
       update(); /// update the estimation of the state to synchronize with the measurements
     }
-- 
2.43.0


From d7693c09195620135b9ca529493ebdd3d0890bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:26 +0000
Subject: [PATCH 37/66] fix: reset the covariance of the state components at
 their tangent indexes

---
 src/kinetics-observer.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 79036f7..41a2cb7 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -423,7 +423,7 @@ void KineticsObserver::setStateKinematics(const Kinematics & kine, bool resetFor
   if(resetCovariance)
   {
     Matrix stateCovariance = ekf_.getStateCovariance();
-    setBlockStateCovariance<sizeStateKineTangent>(stateCovariance, stateKinematicsInitCovMat_, kineIndex());
+    setBlockStateCovariance<sizeStateKineTangent>(stateCovariance, stateKinematicsInitCovMat_, kineIndexTangent());
 
     if(resetForces)
     {
@@ -431,7 +431,8 @@ void KineticsObserver::setStateKinematics(const Kinematics & kine, bool resetFor
       {
         if(i->isSet)
         {
-          setBlockStateCovariance<sizeContact>(stateCovariance, contactInitCovMatDefault_, contactIndex(i));
+          setBlockStateCovariance<sizeContactTangent>(stateCovariance, contactInitCovMatDefault_,
+                                                      contactIndexTangent(i));
         }
       }
     }
@@ -447,7 +448,7 @@ void KineticsObserver::setGyroBias(const Vector3 & bias, unsigned numberOfIMU, b
   if(resetCovariance)
   {
     Matrix stateCovariance = ekf_.getStateCovariance();
-    setBlockStateCovariance<sizeGyroBias>(stateCovariance, gyroBiasInitCovMat_, gyroBiasIndex(numberOfIMU));
+    setBlockStateCovariance<sizeGyroBias>(stateCovariance, gyroBiasInitCovMat_, gyroBiasIndexTangent(numberOfIMU));
 
     ekf_.setStateCovariance(stateCovariance);
   }
@@ -461,7 +462,7 @@ void KineticsObserver::setStateUnmodeledWrench(const Vector6 & wrench, bool rese
   if(resetCovariance)
   {
     Matrix stateCovariance = ekf_.getStateCovariance();
-    setBlockStateCovariance<sizeWrench>(stateCovariance, unmodeledWrenchInitCovMat_, unmodeledWrenchIndex());
+    setBlockStateCovariance<sizeWrench>(stateCovariance, unmodeledWrenchInitCovMat_, unmodeledWrenchIndexTangent());
 
     ekf_.setStateCovariance(stateCovariance);
   }
-- 
2.43.0


From 8553e4b94414fcf5c9b16349d31a137816b3d37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:01 +0000
Subject: [PATCH 38/66] fix: a contact that exists can be removed

---
 src/kinetics-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 41a2cb7..10faa98 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -966,7 +966,7 @@ int KineticsObserver::addContact(const Kinematics & pose,
 
 void KineticsObserver::removeContact(int contactNbr)
 {
-  BOOST_ASSERT(!contacts_[contactNbr].isSet && "Tried to remove a non-existing contact.");
+  BOOST_ASSERT(contacts_[contactNbr].isSet && "Tried to remove a non-existing contact.");
   contacts_[contactNbr].isSet = false;
   if(contacts_[contactNbr].withRealSensor)
   {
-- 
2.43.0


From 686e1c7d703fbdd111949e5150af9e86873aae7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:53 +0000
Subject: [PATCH 39/66] fix: the process noise of contact forces and torques
 uses the process variances

---
 src/kinetics-observer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 10faa98..dc03208 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -124,8 +124,8 @@ KineticsObserver::KineticsObserver(unsigned maxContacts, unsigned maxNumberOfIMU
   unmodeledWrenchProcessCovMat_(Matrix6::Identity() * unmodeledWrenchProcessVarianceDefault),
   contactPositionProcessCovMat_(Matrix3::Identity() * contactPositionProcessVarianceDefault),
   contactOrientationProcessCovMat_(Matrix3::Identity() * contactOrientationProcessVarianceDefault),
-  contactForceProcessCovMat_(Matrix3::Identity() * contactForceInitVarianceDefault),
-  contactTorqueProcessCovMat_(Matrix3::Identity() * contactTorqueInitVarianceDefault)
+  contactForceProcessCovMat_(Matrix3::Identity() * contactForceProcessVarianceDefault),
+  contactTorqueProcessCovMat_(Matrix3::Identity() * contactTorqueProcessVarianceDefault)
 {
   ekf_.setFunctor(this);
   ekf_.setStateArithmetics(this);
@@ -160,6 +160,8 @@ KineticsObserver::KineticsObserver(unsigned maxContacts, unsigned maxNumberOfIMU
   contactProcessCovMatDefault_.block<sizeTorque, sizeTorque>(9, 9) = contactTorqueProcessCovMat_;
 
   contactInitCovMatDefault_ = contactProcessCovMatDefault_;
+  contactInitCovMatDefault_.block<sizeForce, sizeForce>(6, 6) = Matrix3::Identity() * contactForceInitVarianceDefault;
+  contactInitCovMatDefault_.block<sizeTorque, sizeTorque>(9, 9) = Matrix3::Identity() * contactTorqueInitVarianceDefault;
 
   I_.set(Matrix3::Identity(), k_data_);
   Id_.set(Matrix3::Zero(), k_data_);
-- 
2.43.0


From ab1536ef79bbb906e86a4c5cc37d360124f05f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:30 +0000
Subject: [PATCH 40/66] fix: resetting the state covariance resets the one of
 every gyrometer bias

---
 src/kinetics-observer.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index dc03208..1f367e3 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1144,10 +1144,7 @@ void KineticsObserver::resetStateCovarianceMat()
   resetStateKinematicsCovMat();
   for(unsigned i = 0; i < imuSensors_.size(); ++i)
   {
-    if(imuSensors_[i].time == k_data_)
-    {
-      resetStateGyroBiasCovMat(i);
-    }
+    resetStateGyroBiasCovMat(i);
   }
   resetStateUnmodeledWrenchCovMat();
   resetStateContactsCovMat();
-- 
2.43.0


From 060247ed6f1e73ebd307c1268cb68acd62f19669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:30 +0000
Subject: [PATCH 41/66] fix: an IMU without number takes the first one not
 measured yet in the iteration

---
 src/kinetics-observer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 1f367e3..55fae45 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -512,7 +512,7 @@ int KineticsObserver::setIMU(const Vector3 & accelero, const Vector3 & gyrometer
   if(num < 0)
   {
     num = 0;
-    while(imuSensors_[num].time != k_data_ && unsigned(num) < imuSensors_.size())
+    while(unsigned(num) < imuSensors_.size() && imuSensors_[num].time == k_data_)
     {
       ++num;
     }
@@ -570,7 +570,7 @@ int KineticsObserver::setIMU(const Vector3 & accelero,
   if(num < 0)
   {
     num = 0;
-    while(imuSensors_[num].time != k_data_ && unsigned(num) < imuSensors_.size())
+    while(unsigned(num) < imuSensors_.size() && imuSensors_[num].time == k_data_)
     {
       ++num;
     }
-- 
2.43.0


From f7f78901a91c447f08e4d2568ced8453c9357c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:02 +0000
Subject: [PATCH 42/66] fix: the kinematics of an IMU are derived over the time
 since it was last given

---
 src/kinetics-observer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 55fae45..2fa145e 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -548,7 +548,7 @@ int KineticsObserver::setIMU(const Vector3 & accelero, const Vector3 & gyrometer
   }
   else
   {
-    imu.kinematics.update(localKine, dt_ * (k_data_ - k_data_), flagsIMUKine);
+    imu.kinematics.update(localKine, dt_ * double(k_data_ - imu.time), flagsIMUKine);
   }
 
   imu.time = k_data_;
@@ -607,7 +607,7 @@ int KineticsObserver::setIMU(const Vector3 & accelero,
   }
   else
   {
-    imu.kinematics.update(localKine, dt_ * (k_data_ - k_data_), flagsIMUKine);
+    imu.kinematics.update(localKine, dt_ * double(k_data_ - imu.time), flagsIMUKine);
   }
 
   imu.time = k_data_;
-- 
2.43.0


From 0be614d98e3a088c155ef4f095ad812dfa73055f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:32 +0000
Subject: [PATCH 43/66] fix: removing all the contacts leaves room to add new
 ones, contacts are counted

---
 src/kinetics-observer.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 2fa145e..cd0c5ec 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -979,13 +979,25 @@ void KineticsObserver::removeContact(int contactNbr)
 
 void KineticsObserver::clearContacts()
 {
-  contacts_.clear();
+  for(VectorContactIterator i = contacts_.begin(); i != contacts_.end(); ++i)
+  {
+    i->isSet = false;
+    i->withRealSensor = false;
+  }
   numberOfContactRealSensors_ = 0;
 }
 
 Index KineticsObserver::getNumberOfContacts() const
 {
-  return contacts_.size();
+  Index n = 0;
+  for(VectorContactConstIterator i = contacts_.begin(); i != contacts_.end(); ++i)
+  {
+    if(i->isSet)
+    {
+      ++n;
+    }
+  }
+  return n;
 }
 
 std::vector<int> KineticsObserver::getListOfContacts() const
-- 
2.43.0


From 4e65fbd244a792bdba3a309f93d539943eb9f3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:04 +0000
Subject: [PATCH 44/66] fix: the wrench sensors of an iteration are the ones
 given in it

---
 src/kinetics-observer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index cd0c5ec..6f68ec4 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1309,6 +1309,10 @@ void KineticsObserver::startNewIteration_()
   if(k_est_ == k_data_)
   {
     ++k_data_;
+    for(VectorContactIterator i = contacts_.begin(); i != contacts_.end(); ++i)
+    {
+      i->withRealSensor = false;
+    }
     numberOfContactRealSensors_ = 0;
     currentIMUSensorNumber_ = 0;
   }
-- 
2.43.0


From b3381d4b583fd1a0490bc7875a3d3ec58e5f79d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:12 +0000
Subject: [PATCH 45/66] fix: resetting the inputs drops the pending
 measurements only

---
 src/kinetics-observer.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 6f68ec4..910cb27 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1276,15 +1276,27 @@ void KineticsObserver::resetInputs()
 {
   for(VectorIMUIterator i = imuSensors_.begin(); i != imuSensors_.end(); ++i)
   {
-    i->time = k_est_;
+    if(i->time > k_est_)
+    {
+      i->time = k_est_;
+    }
   }
+  currentIMUSensorNumber_ = 0;
 
   for(VectorContactIterator i = contacts_.begin(); i != contacts_.end(); ++i)
   {
-    i->time = k_est_;
+    if(i->time > k_est_)
+    {
+      i->time = k_est_;
+    }
+    i->withRealSensor = false;
   }
+  numberOfContactRealSensors_ = 0;
 
-  absPoseSensor_.time = k_est_;
+  if(absPoseSensor_.time > k_est_)
+  {
+    absPoseSensor_.time = k_est_;
+  }
 }
 
 void KineticsObserver::setFiniteDifferenceStep(const Vector & v)
-- 
2.43.0


From a4985d7c1fbb68167881fe8b0fcd7aa436770bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:05 +0000
Subject: [PATCH 46/66] fix: the linear stiffness given to a new contact is the
 one used

---
 src/kinetics-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 910cb27..11a0635 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -902,7 +902,7 @@ int KineticsObserver::addContact(const Kinematics & pose,
 
   contact.absPose = pose;
 
-  if(linearDamping != Matrix3::Zero())
+  if(linearStiffness != Matrix3::Zero())
   {
     contact.linearStiffness = linearStiffness;
   }
-- 
2.43.0


From 9943dd378bb5c867c969de6d544996fae5ed749f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:38 +0000
Subject: [PATCH 47/66] fix: the pose of a new contact is given to the filter

---
 src/kinetics-observer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 11a0635..2318695 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -940,6 +940,7 @@ int KineticsObserver::addContact(const Kinematics & pose,
 
   /// update the state vector
   stateVector_.segment<sizeContact>(contact.stateIndex) << pose.toVector(flagsContactKine), Vector6::Zero();
+  ekf_.setState(stateVector_, k_est_);
 
   /// sets the initial covariance matrix
   Matrix stateCovMat = ekf_.getStateCovariance();
-- 
2.43.0


From 3c6589c314c4ecc15a3ed28075d86827c702eeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:11 +0000
Subject: [PATCH 48/66] fix: the centrifugal acceleration is counted once

---
 src/kinetics-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 2318695..deafbae 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1402,7 +1402,7 @@ void KineticsObserver::computeAccelerations_(Kinematics & stateKine,
 {
   Matrix3 Rt = stateKine.orientation.toMatrix3().transpose();
   Vector3 Rtw = Rt * stateKine.angVel();
-  Vector3 corioCentri = 2 * Rtw.cross(comd_() + Rtw.cross(com_()));
+  Vector3 corioCentri = 2 * Rtw.cross(comd_()) + Rtw.cross(Rtw.cross(com_()));
 
   angAcc = stateKine.orientation
            * ((I_() + mass_ * kine::skewSymmetric2(com_())).inverse()
-- 
2.43.0


From c0b0470e7c00797525f0587e2569fc5377464d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:43 +0000
Subject: [PATCH 49/66] fix: the predicted measurement writes the accelerations
 in the kinematics of the state

---
 src/kinetics-observer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index deafbae..42ab959 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1622,8 +1622,8 @@ Vector KineticsObserver::measureDynamics(const Vector & x, const Vector & /*unus
   stateKine.linAcc.set(true);
   stateKine.angAcc.set(true);
 
-  Vector3 & linacc = (Vector3 &)(stateKine.linAcc);
-  Vector3 & angacc = (Vector3 &)(stateKine.angAcc);
+  Vector3 & linacc = stateKine.linAcc();
+  Vector3 & angacc = stateKine.angAcc();
 
   computeAccelerations_(stateKine, forceLocal, torqueLocal, linacc, angacc);
 
-- 
2.43.0


From a67a4faaf4e5ba3d8ed1ba96885d5bb05f449bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:37 +0000
Subject: [PATCH 50/66] fix: the switch of the gyrometer bias estimation acts
 on it

---
 src/kinetics-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 42ab959..c22769d 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -501,7 +501,7 @@ void KineticsObserver::setWithAccelerationEstimation(bool b)
 
 void KineticsObserver::setWithGyroBias(bool b)
 {
-  withAccelerationEstimation_ = b;
+  withGyroBias_ = b;
 }
 
 int KineticsObserver::setIMU(const Vector3 & accelero, const Vector3 & gyrometer, const Kinematics & localKine, int num)
-- 
2.43.0


From d8c6fa55cb904208dfd9de168f01cf2e329879f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:08 +0000
Subject: [PATCH 51/66] fix: the process and measurement noises are applied

---
 src/kinetics-observer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index c22769d..e8ec00f 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1601,7 +1601,7 @@ Vector KineticsObserver::stateDynamics(const Vector & xInput, const Vector & /*u
 
   if(processNoise_ != 0x0)
   {
-    processNoise_->getNoisy(x);
+    x = processNoise_->getNoisy(x);
   }
 
   return x;
@@ -1661,7 +1661,7 @@ Vector KineticsObserver::measureDynamics(const Vector & x, const Vector & /*unus
 
   if(measurementNoise_ != 0x0)
   {
-    measurementNoise_->getNoisy(y);
+    y = measurementNoise_->getNoisy(y);
   }
 
   return y;
-- 
2.43.0


From 652653f5b7a13c68ce4a3490cc068b79360dbfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:38 +0000
Subject: [PATCH 52/66] fix: the predicted gyrometer signal includes the
 estimated bias

---
 src/kinetics-observer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index e8ec00f..fec991e 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1643,6 +1643,11 @@ Vector KineticsObserver::measureDynamics(const Vector & x, const Vector & /*unus
       /// gyrometer
       y.segment<sizeGyroSignal>(imu.measIndex + sizeAcceleroSignal).noalias() =
           globalOri.transpose() * globalKine.angVel();
+      if(withGyroBias_)
+      {
+        y.segment<sizeGyroSignal>(imu.measIndex + sizeAcceleroSignal) +=
+            x.segment<sizeGyroBias>(gyroBiasIndex(unsigned(i - imuSensors_.begin())));
+      }
     }
   }
 
-- 
2.43.0


From 029c9ba7cf44ef56b06992052f4adbd887cde18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:08 +0000
Subject: [PATCH 53/66] fix: the contact wrench model uses the rest pose of the
 contact

---
 .../dynamics-estimators/kinetics-observer.hpp |  4 +--
 src/kinetics-observer.cpp                     | 31 +++++--------------
 2 files changed, 10 insertions(+), 25 deletions(-)

diff --git a/include/state-observation/dynamics-estimators/kinetics-observer.hpp b/include/state-observation/dynamics-estimators/kinetics-observer.hpp
index e19cdca..fc2dbf0 100644
--- a/include/state-observation/dynamics-estimators/kinetics-observer.hpp
+++ b/include/state-observation/dynamics-estimators/kinetics-observer.hpp
@@ -931,8 +931,8 @@ protected:
   void computeContactForces_(VectorContactIterator i,
                              Kinematics & stateKine,
                              Kinematics & contactPose,
-                             Vector3 & Force,
-                             Vector3 torque);
+                             Vector3 & force,
+                             Vector3 & torque);
 
   /// Sets a noise which disturbs the state dynamics
   virtual void setProcessNoise(NoiseBase *);
diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index fec991e..cd3beca 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -1417,7 +1417,7 @@ void KineticsObserver::computeContactForces_(VectorContactIterator i,
                                              Kinematics & stateKine,
                                              Kinematics & contactPose,
                                              Vector3 & force,
-                                             Vector3 torque)
+                                             Vector3 & torque)
 {
   Contact & contact = *i;
 
@@ -1572,30 +1572,15 @@ Vector KineticsObserver::stateDynamics(const Vector & xInput, const Vector & /*u
   {
     if(i->isSet)
     {
-      Kinematics & localKine = i->localKine;
+      /// the rest pose of the contact in the global frame
+      Kinematics contactPose(x.segment<sizePose>(contactKineIndex(i)), flagsContactKine);
 
-      Matrix3 & Kpt = i->linearStiffness;
-      Matrix3 & Kdt = i->linearDamping;
-      Matrix3 & Kpr = i->angularStiffness;
-      Matrix3 & Kdr = i->angularDamping;
+      Vector3 force;
+      Vector3 torque;
+      computeContactForces_(i, stateKine, contactPose, force, torque);
 
-      /// the posiiton of the contact in the global frame
-      Kinematics globalKine;
-
-      globalKine.setToProductNoAlias(stateKine, localKine);
-
-      /// The error between the current kinematics and the rest kinematics
-      /// of the flexibility
-      Kinematics errorKine;
-      errorKine.setToProductNoAlias(globalKine, localKine.getInverse());
-
-      /// Inverse of the orientation of the foot in the global frame
-      Orientation Rcit(globalKine.orientation.inverse());
-
-      x.segment<sizeForce>(contactForceIndex(i)) = -(Rcit * (Kpt * errorKine.position() + Kdt * errorKine.linVel()));
-
-      x.segment<sizeTorque>(contactTorqueIndex(i)) = -(
-          Rcit * (Kpr * kine::vectorComponent(errorKine.orientation.toQuaternion()) * 0.5 + Kdr * errorKine.angVel()));
+      x.segment<sizeForce>(contactForceIndex(i)) = force;
+      x.segment<sizeTorque>(contactTorqueIndex(i)) = torque;
     }
   }
 
-- 
2.43.0


From 150c2da1e141ba853f4fe6959d287bf120150104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:18 +0000
Subject: [PATCH 54/66] fix: the velocities of a new contact are zero when they
 are not given

---
 .../dynamics-estimators/kinetics-observer.hpp |  4 ++
 src/kinetics-observer.cpp                     | 48 +++++++++----------
 2 files changed, 28 insertions(+), 24 deletions(-)

diff --git a/include/state-observation/dynamics-estimators/kinetics-observer.hpp b/include/state-observation/dynamics-estimators/kinetics-observer.hpp
index fc2dbf0..504eec8 100644
--- a/include/state-observation/dynamics-estimators/kinetics-observer.hpp
+++ b/include/state-observation/dynamics-estimators/kinetics-observer.hpp
@@ -927,6 +927,10 @@ protected:
                              Vector3 & linAcc,
                              Vector3 & angAcc);
 
+  /// sets the kinematics of a contact in the local frame, the velocities that are not given are derived from the ones
+  /// of the previous iteration or are zero if the contact is new
+  void updateContactLocalKine_(Contact & contact, const Kinematics & localKine);
+
   /// the kinematics is not const to allow more optimized non const operators to work
   void computeContactForces_(VectorContactIterator i,
                              Kinematics & stateKine,
diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index cd3beca..4c7fb7f 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -623,6 +623,26 @@ void KineticsObserver::setIMUDefaultCovarianceMatrix(const Matrix3 & acceleroCov
   gyroCovMatDefault_ = gyroCov;
 }
 
+void KineticsObserver::updateContactLocalKine_(Contact & contact, const Kinematics & localKine)
+{
+  if(contact.localKine.position.isSet() && contact.time == k_data_ - 1) /// the contact is not newly set
+  {
+    contact.localKine.update(localKine, dt_, Contact::localKineFlags);
+  }
+  else /// the contact is newlyset
+  {
+    contact.localKine = localKine;
+    if(!contact.localKine.linVel.isSet())
+    {
+      contact.localKine.linVel.set().setZero();
+    }
+    if(!contact.localKine.angVel.isSet())
+    {
+      contact.localKine.angVel.set().setZero();
+    }
+  }
+}
+
 void KineticsObserver::updateContactWithWrenchSensor(const Vector6 & wrench,
                                                      const Kinematics & localKine,
                                                      unsigned contactNumber)
@@ -635,14 +655,7 @@ void KineticsObserver::updateContactWithWrenchSensor(const Vector6 & wrench,
   BOOST_ASSERT((contacts_[contactNumber].isSet) && "Tried to set the wrench of non-existing contact. \
                                             The contact must be added BEFORE setting a contact wrench Sensor");
 
-  if(contacts_[contactNumber].time == k_data_ - 1) /// the contact is not newly set
-  {
-    contacts_[contactNumber].localKine.update(localKine, dt_, Contact::localKineFlags);
-  }
-  else /// the contact is newlyset
-  {
-    contacts_[contactNumber].localKine = localKine;
-  }
+  updateContactLocalKine_(contacts_[contactNumber], localKine);
   contacts_[contactNumber].wrench = wrench;
   contacts_[contactNumber].time = k_data_;
 
@@ -671,14 +684,7 @@ void KineticsObserver::updateContactWithWrenchSensor(const Vector6 & wrench,
   BOOST_ASSERT((contacts_[contactNumber].isSet) && "Tried to set the wrench of non-existing contact. \
                                             The contact must be added BEFORE setting a contact wrench Sensor");
 
-  if(contacts_[contactNumber].time == k_data_ - 1) /// the contact is not newly set
-  {
-    contacts_[contactNumber].localKine.update(localKine, dt_, Contact::localKineFlags);
-  }
-  else /// the contact is newlyset
-  {
-    contacts_[contactNumber].localKine = localKine;
-  }
+  updateContactLocalKine_(contacts_[contactNumber], localKine);
   contacts_[contactNumber].wrench = wrench;
   contacts_[contactNumber].time = k_data_;
   contacts_[contactNumber].sensorCovMatrix = wrenchCovMatrix;
@@ -705,14 +711,7 @@ void KineticsObserver::updateContactWithNoSensor(const Kinematics & localKine, u
   BOOST_ASSERT((contacts_[contactNumber].isSet) && "Tried to set the wrench of non-existing contact. \
                                             The contact must be added BEFORE setting a contact wrench Sensor");
 
-  if(contacts_[contactNumber].time == k_data_ - 1) /// the contact is not newly set
-  {
-    contacts_[contactNumber].localKine.update(localKine, dt_, Contact::localKineFlags);
-  }
-  else /// the contact is newlyset
-  {
-    contacts_[contactNumber].localKine = localKine;
-  }
+  updateContactLocalKine_(contacts_[contactNumber], localKine);
 
   contacts_[contactNumber].time = k_data_;
 
@@ -901,6 +900,7 @@ int KineticsObserver::addContact(const Kinematics & pose,
   contact.stateIndexTangent = contactsIndexTangent() + contactNumber * sizeContactTangent;
 
   contact.absPose = pose;
+  contact.localKine.reset();
 
   if(linearStiffness != Matrix3::Zero())
   {
-- 
2.43.0


From e4634dea0f1fb376ef7e67c492f56410c9baa278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:46 +0000
Subject: [PATCH 55/66] fix: the initial orientation of a KineticsObserver was
 a null quaternion

---
 src/kinetics-observer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 4c7fb7f..bb52e69 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -131,6 +131,7 @@ KineticsObserver::KineticsObserver(unsigned maxContacts, unsigned maxNumberOfIMU
   ekf_.setStateArithmetics(this);
 
   stateVector_.setZero();
+  stateVector_.segment<sizeOri>(oriIndex()) = Quaternion::Identity().coeffs();
   oldStateVector_ = stateVector_;
 
   ekf_.setState(stateVector_, k_est_);
-- 
2.43.0


From 2b9c7da74c8b8c67a9e46e9673c5e45a48ca9837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:16 +0000
Subject: [PATCH 56/66] fix: the state difference had uninitialised values for
 the components which are not used

---
 .../state-observation/dynamics-estimators/kinetics-observer.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/state-observation/dynamics-estimators/kinetics-observer.hxx b/include/state-observation/dynamics-estimators/kinetics-observer.hxx
index 1b723a0..80f5bec 100644
--- a/include/state-observation/dynamics-estimators/kinetics-observer.hxx
+++ b/include/state-observation/dynamics-estimators/kinetics-observer.hxx
@@ -221,7 +221,7 @@ inline Vector KineticsObserver::stateSum(const Vector& stateVector, const Vector
 
 inline Vector KineticsObserver::stateDifference(const Vector& stateVector1, const Vector& stateVector2)
 {
-    Vector diff;
+    Vector diff = Vector::Zero(stateTangentSize_);
     stateDifference(stateVector1, stateVector2, diff);
     return diff;
 }
-- 
2.43.0


From 99bb1ce0319df7a7079bf7a5398108472b15d0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:10 +0000
Subject: [PATCH 57/66] fix: setting the state vector of the KineticsObserver
 left the accelerations of the former state

---
 src/kinetics-observer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index bb52e69..897cf99 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -475,6 +475,7 @@ void KineticsObserver::setStateVector(const Vector & v, bool resetCovariance)
 {
   stateVector_ = v;
   ekf_.setState(v, k_est_);
+  stateKinematics_.reset();
   updateKine_();
 
   if(resetCovariance)
-- 
2.43.0


From e9c51ee71b1035b03e81cf850c0d93699bb56920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:04 +0000
Subject: [PATCH 58/66] fix: estimating aborted when the model has inputs which
 are not used nor given

---
 src/zero-delay-observer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zero-delay-observer.cpp b/src/zero-delay-observer.cpp
index 79ceddf..594e06a 100644
--- a/src/zero-delay-observer.cpp
+++ b/src/zero-delay-observer.cpp
@@ -158,7 +158,7 @@ ObserverBase::StateVector ZeroDelayObserver::getEstimatedState(TimeIndex k)
     if(y_.getFirstIndex() < k) y_.popFront();
 
     if(p_ > 0)
-      if(u_.getFirstIndex() < k) u_.popFront();
+      if(u_.size() > 0 && u_.getFirstIndex() < k) u_.popFront();
   }
 
   return x_();
-- 
2.43.0


From eb42580077ec5f4956d1e35df8c9e7b2c2c24d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:32 +0000
Subject: [PATCH 59/66] fix: isRotationMatrix compares the three components of
 the cross product (a reflection exchanging two axes was accepted)

---
 include/state-observation/tools/rigid-body-kinematics.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/state-observation/tools/rigid-body-kinematics.hxx b/include/state-observation/tools/rigid-body-kinematics.hxx
index ea16890..bc317a4 100644
--- a/include/state-observation/tools/rigid-body-kinematics.hxx
+++ b/include/state-observation/tools/rigid-body-kinematics.hxx
@@ -504,7 +504,8 @@ inline bool isRotationMatrix(const Matrix3 & M, double precision)
   /// The test checks that it is unitary then checks that the cross product of the two first vectors gets you the last
   return (M.isUnitary()
           && (isApproxAbs(M.topLeftCorner<2, 2>().determinant(), M(2, 2), precision)
-              && isApproxAbs(M.bottomLeftCorner<2, 2>().determinant(), M(0, 2), precision)));
+              && isApproxAbs(M.bottomLeftCorner<2, 2>().determinant(), M(0, 2), precision)
+              && isApproxAbs(M(2, 0) * M(0, 1) - M(0, 0) * M(2, 1), M(1, 2), precision)));
 }
 
 /// transforms a rotation into translation given a constraint of a fixed point
-- 
2.43.0


From f9c02540f39b26856b348b3c7cc23018fb6923b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:52 +0000
Subject: [PATCH 60/66] fix: giving the flexibility as a homogeneous matrix
 aborted (a 4x4 matrix was copied into a vector)

---
 src/fixed-contact-ekf-flex-estimator-imu.cpp | 4 +---
 src/model-base-ekf-flex-estimator-imu.cpp    | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/fixed-contact-ekf-flex-estimator-imu.cpp b/src/fixed-contact-ekf-flex-estimator-imu.cpp
index 4cb4a79..f573eb1 100644
--- a/src/fixed-contact-ekf-flex-estimator-imu.cpp
+++ b/src/fixed-contact-ekf-flex-estimator-imu.cpp
@@ -115,7 +115,7 @@ void FixedContactEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
   BOOST_ASSERT((bstate || b6 || bhomogeneous) && "ERROR: The flexibility state has incorrect size \
                     must be 18x1 vector, 6x1 vector or 4x4 matrix");
 
-  Vector x0 = x;
+  Vector x0 = bhomogeneous ? Vector(kine::homogeneousMatrixToVector6(x)) : Vector(x);
 
   if(bstate)
   {
@@ -123,8 +123,6 @@ void FixedContactEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
   }
   else
   {
-    if(bhomogeneous) x0 = kine::homogeneousMatrixToVector6(x);
-
     Vector x_s = ekf_.stateVectorZero();
 
     x_s.segment(indexes::pos, 3) = x0.head(3);
diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index 2e37a11..fbcc4b4 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -165,7 +165,7 @@ void ModelBaseEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
   BOOST_ASSERT((bstate || b6 || bhomogeneous) && "ERROR: The flexibility state has incorrect size \
                     must be 23x1 vector, 6x1 vector or 4x4 matrix");
 
-  Vector x0(x);
+  Vector x0 = bhomogeneous ? Vector(kine::homogeneousMatrixToVector6(x)) : Vector(x);
 
   if(bstate)
   {
@@ -173,8 +173,6 @@ void ModelBaseEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
   }
   else
   {
-    if(bhomogeneous) x0 = kine::homogeneousMatrixToVector6(x);
-
     Vector x_s = ekf_.stateVectorZero();
 
     x_s.segment(state::pos, 3) = x0.head<3>();
-- 
2.43.0


From 4fd7ccc5300518e268f2d05f3e5a7951ff544fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:12 +0000
Subject: [PATCH 61/66] fix: the simulator read before its first input instead
 of refusing a time without input

---
 src/dynamical-system-simulator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamical-system-simulator.cpp b/src/dynamical-system-simulator.cpp
index 2d1d61f..9c39b15 100644
--- a/src/dynamical-system-simulator.cpp
+++ b/src/dynamical-system-simulator.cpp
@@ -63,9 +63,9 @@ Vector DynamicalSystemSimulator::getInput(TimeIndex k) const
   BOOST_ASSERT(u_.size() > 0 && "ERROR: the input is not set");
   std::map<TimeIndex, Vector>::const_iterator i = u_.upper_bound(k);
 
-  --i;
+  BOOST_ASSERT(i != u_.begin() && "ERROR: the input is not set for the current time");
 
-  BOOST_ASSERT(i->first <= k && "ERROR: the input is not set for the current time");
+  --i;
 
   return i->second;
 }
-- 
2.43.0


From 87ca1383a5589ca0e08bd450d94fcfe19bb1bbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:18 +0000
Subject: [PATCH 62/66] fix: testing the size of a flexibility given as a
 homogeneous matrix aborted as well

---
 src/fixed-contact-ekf-flex-estimator-imu.cpp | 2 +-
 src/model-base-ekf-flex-estimator-imu.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fixed-contact-ekf-flex-estimator-imu.cpp b/src/fixed-contact-ekf-flex-estimator-imu.cpp
index f573eb1..df4aacb 100644
--- a/src/fixed-contact-ekf-flex-estimator-imu.cpp
+++ b/src/fixed-contact-ekf-flex-estimator-imu.cpp
@@ -106,7 +106,7 @@ double FixedContactEKFFlexEstimatorIMU::getVirtualMeasurementsCovariance() const
 
 void FixedContactEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
 {
-  bool bstate = ekf_.checkStateVector(x);
+  bool bstate = x.cols() == 1 && ekf_.checkStateVector(x);
   bool b6 = (x.rows() == 6 && x.cols() == 1);
   bool bhomogeneous = (x.rows() == 4 && x.cols() == 4);
 
diff --git a/src/model-base-ekf-flex-estimator-imu.cpp b/src/model-base-ekf-flex-estimator-imu.cpp
index fbcc4b4..14f0457 100644
--- a/src/model-base-ekf-flex-estimator-imu.cpp
+++ b/src/model-base-ekf-flex-estimator-imu.cpp
@@ -156,7 +156,7 @@ void ModelBaseEKFFlexEstimatorIMU::setMeasurement(const Vector & y)
 
 void ModelBaseEKFFlexEstimatorIMU::setFlexibilityGuess(const Matrix & x)
 {
-  bool bstate = ekf_.checkStateVector(x);
+  bool bstate = x.cols() == 1 && ekf_.checkStateVector(x);
   bool b6 = (x.rows() == 6 && x.cols() == 1);
   bool bhomogeneous = (x.rows() == 4 && x.cols() == 4);
 
-- 
2.43.0


From 1a127111796cef8028cb4c31d9395b67fd4f3889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:46 +0000
Subject: [PATCH 63/66] fix: a linear filter without input could not estimate
 unless given an empty input matrix

---
 src/linear-kalman-filter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linear-kalman-filter.cpp b/src/linear-kalman-filter.cpp
index 621d880..7724662 100644
--- a/src/linear-kalman-filter.cpp
+++ b/src/linear-kalman-filter.cpp
@@ -31,7 +31,7 @@ ObserverBase::StateVector LinearKalmanFilter::prediction_(TimeIndex k)
   (void)k; // unused
 
   BOOST_ASSERT(checkAmatrix(a_) && "ERROR: The A matrix is not initialized");
-  BOOST_ASSERT(checkBmatrix(b_) && "ERROR: The B matrix is not initialized");
+  BOOST_ASSERT((p_ == 0 || checkBmatrix(b_)) && "ERROR: The B matrix is not initialized");
   BOOST_ASSERT(checkCmatrix(c_) && "ERROR: The C matrix is not initialized");
 
   xbar_.set(a_ * x_(), k);
-- 
2.43.0


From ed1be24ec0a5362513e1b65c557848618207299f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:51 +0000
Subject: [PATCH 64/66] fix: the first and last samples of an empty array were
 read instead of refused

---
 include/state-observation/tools/definitions.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/state-observation/tools/definitions.hxx b/include/state-observation/tools/definitions.hxx
index fd34265..ad08f63 100644
--- a/include/state-observation/tools/definitions.hxx
+++ b/include/state-observation/tools/definitions.hxx
@@ -306,6 +306,7 @@ inline MatrixType & IndexedMatrixArrayT<MatrixType, Allocator>::operator[](TimeI
 template <typename MatrixType, typename Allocator>
 inline const MatrixType & IndexedMatrixArrayT<MatrixType, Allocator>::front() const
 {
+    check_();
     return v_.front();
 }
 
@@ -313,6 +314,7 @@ inline const MatrixType & IndexedMatrixArrayT<MatrixType, Allocator>::front() co
 template <typename MatrixType, typename Allocator>
 inline MatrixType& IndexedMatrixArrayT<MatrixType, Allocator>::front()
 {
+    check_();
     return v_.front();
 }
 
@@ -320,6 +322,7 @@ inline MatrixType& IndexedMatrixArrayT<MatrixType, Allocator>::front()
 template <typename MatrixType, typename Allocator>
 inline const MatrixType & IndexedMatrixArrayT<MatrixType, Allocator>::back() const
 {
+    check_();
     return v_.back();
 }
 
@@ -327,6 +330,7 @@ inline const MatrixType & IndexedMatrixArrayT<MatrixType, Allocator>::back() con
 template <typename MatrixType, typename Allocator>
 inline MatrixType & IndexedMatrixArrayT<MatrixType, Allocator>::back()
 {
+    check_();
     return v_.back();
 }
 
-- 
2.43.0


From 8db4ad2825bcf9315bbac80ea093111fbf036ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:27 +0000
Subject: [PATCH 65/66] fix: removing a contact beyond the maximum number wrote
 outside of the contacts

---
 src/kinetics-observer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kinetics-observer.cpp b/src/kinetics-observer.cpp
index 897cf99..c1dadc4 100644
--- a/src/kinetics-observer.cpp
+++ b/src/kinetics-observer.cpp
@@ -971,7 +971,8 @@ int KineticsObserver::addContact(const Kinematics & pose,
 
 void KineticsObserver::removeContact(int contactNbr)
 {
-  BOOST_ASSERT(contacts_[contactNbr].isSet && "Tried to remove a non-existing contact.");
+  BOOST_ASSERT(unsigned(contactNbr) < maxContacts_ && contacts_[contactNbr].isSet
+               && "Tried to remove a non-existing contact.");
   contacts_[contactNbr].isSet = false;
   if(contacts_[contactNbr].withRealSensor)
   {
-- 
2.43.0


From 76a9cbdaa06f4c0a4c772b20ab8f47af8334a954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:56 +0000
Subject: [PATCH 66/66] fix: the covariance was symmetrised in place, reading
 what it had already written

---
 src/kalman-filter-base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kalman-filter-base.cpp b/src/kalman-filter-base.cpp
index 00b2030..3001432 100644
--- a/src/kalman-filter-base.cpp
+++ b/src/kalman-filter-base.cpp
@@ -165,7 +165,7 @@ ObserverBase::StateVector KalmanFilterBase::oneStepEstimation_()
   pr_ *= oc_.pbar;
 
   // simmetrize the pr_ matrix
-  pr_ = (pr_ + pr_.transpose()) * 0.5;
+  pr_ = ((pr_ + pr_.transpose()) * 0.5).eval();
 
   return oc_.xhat;
 }
-- 
2.43.0

