From 11c996f3eff393e6364780c04e293e171e6cd994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:15 +0000
Subject: [PATCH 001/107] fix: wake a blocked producer after a non-blocking pop
 from GBoundedBufferT

---
 include/common/GBoundedBufferT.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/common/GBoundedBufferT.hpp b/include/common/GBoundedBufferT.hpp
index 1bb695d..4e38443 100644
--- a/include/common/GBoundedBufferT.hpp
+++ b/include/common/GBoundedBufferT.hpp
@@ -527,7 +527,7 @@ public:
 			 }
 		 } // Release the lock
 
-		 if(success) m_not_empty.notify_one();
+		 if(success) m_not_full.notify_one();
 
 		 return success;
 	 }
@@ -554,7 +554,7 @@ public:
 			 }
 		 } // Release the lock
 
-		 if(success) m_not_empty.notify_one();
+		 if(success) m_not_full.notify_one();
 
 		 return success;
 	 }
-- 
2.43.0


From c1400e777cf1d8d2360ecf0bb4a7d011f4536af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:37 +0000
Subject: [PATCH 002/107] fix: let GBarrier::wait() block until the generation
 has advanced

---
 include/common/GBarrier.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common/GBarrier.hpp b/include/common/GBarrier.hpp
index 83520eb..a763591 100644
--- a/include/common/GBarrier.hpp
+++ b/include/common/GBarrier.hpp
@@ -111,7 +111,7 @@ public:
 		 m_cond.wait(
 		 	lock
 		 	, [&]() {
-		 		return gen == m_generation;
+		 		return gen != m_generation;
 		 	}
 	 	 );
 		 return false;
-- 
2.43.0


From bb5f812a1c0cecd9397432eed79e3e2271f4697e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:37 +0000
Subject: [PATCH 003/107] fix: fulfil the promise of void jobs scheduled in
 GThreadPool

---
 include/common/GThreadPool.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/common/GThreadPool.hpp b/include/common/GThreadPool.hpp
index 208e647..916c9f5 100644
--- a/include/common/GThreadPool.hpp
+++ b/include/common/GThreadPool.hpp
@@ -176,6 +176,7 @@ public:
 			, [this, promise_ptr, f = std::bind<result_type>(std::forward<F>(f), std::forward<Args>(args)...)]() {
 				 try {
 					 f();
+					 promise_ptr->set_value();
 				 } catch(boost::exception& e) {
 					 // Convert to a std::runtime_exception
 					 std::runtime_error r(boost::diagnostic_information(e));
-- 
2.43.0


From 988574d59320e3c28c552c93a2c47dc526a445f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:29 +0000
Subject: [PATCH 004/107] fix: keep the best items when several are added to a
 GFixedSizePriorityQueueT at once

---
 include/common/GFixedSizePriorityQueueT.hpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/include/common/GFixedSizePriorityQueueT.hpp b/include/common/GFixedSizePriorityQueueT.hpp
index 3063763..74c8ea7 100644
--- a/include/common/GFixedSizePriorityQueueT.hpp
+++ b/include/common/GFixedSizePriorityQueueT.hpp
@@ -326,23 +326,22 @@ public:
 		 , bool do_clone
 		 , bool replace
 	 ) BASE {
-		 double worstKnownEvaluation = Gem::Common::getWorstCase<double>(m_sortOrder);
-		 if (replace || m_data_deq.empty()) {
+		 if (replace) {
 			 m_data_deq.clear();
-		 } else {
-			 // Data already exists, we know better than the worst known valid
-			 worstKnownEvaluation = this->evaluation(this->worst());
 		 }
 
-		 // At this point, worstKnownEvaluation will be
-		 // - the worst case, if the queue is empty or all entries in the queue will be replaced
-		 // - the evaluation of the worst entry in the queue if we only add items (regardless of whether they will be cloned or not)
+		 // Only if the queue was already full may its worst entry serve as the threshold that
+		 // new items need to pass. Otherwise the surplus is removed when all items are known.
+		 const bool isFull = (0 != m_maxSize && m_data_deq.size() >= m_maxSize);
+		 const double worstKnownEvaluation = isFull
+			 ? this->evaluation(this->worst())
+			 : Gem::Common::getWorstCase<double>(m_sortOrder);
+
 		 for(auto const & item_ptr: items) {
 			 // Add the work item to the queue
-			 // - If the queue is unlimited
-			 // - If the queue isn't full yet
+			 // - If the queue is unlimited or wasn't full
 			 // - If the item is better than the worst one already contained in the queue
-			 if (0 == m_maxSize || m_data_deq.size() < m_maxSize || isBetter(this->evaluation(item_ptr), worstKnownEvaluation)) {
+			 if (not isFull || isBetter(this->evaluation(item_ptr), worstKnownEvaluation)) {
 				 if (do_clone) {
 					 m_data_deq.push_back(item_ptr->template clone<T>());
 				 } else {
-- 
2.43.0


From a38d3621999711e3bb135c16d88fb5a49b767c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:29 +0000
Subject: [PATCH 005/107] fix: honour an unlimited size and a changed order in
 GFixedSizePriorityQueueT

---
 include/common/GFixedSizePriorityQueueT.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/common/GFixedSizePriorityQueueT.hpp b/include/common/GFixedSizePriorityQueueT.hpp
index 74c8ea7..4b4c243 100644
--- a/include/common/GFixedSizePriorityQueueT.hpp
+++ b/include/common/GFixedSizePriorityQueueT.hpp
@@ -231,7 +231,18 @@ public:
 	  * considered to be better.
 	  */
 	 void setSortOrder(Gem::Common::sortOrder sortOrder) {
+		 if (m_sortOrder == sortOrder) return;
+
 		 m_sortOrder = sortOrder;
+
+		 // Entries already in the queue need to follow the new order
+		 std::sort(
+			 m_data_deq.begin()
+			 , m_data_deq.end()
+			 , [this](std::shared_ptr<T> const & x_ptr, std::shared_ptr<T> const & y_ptr) -> bool {
+				 return this->isBetter(x_ptr, y_ptr);
+			 }
+		 );
 	 }
 
 	 /***************************************************************************/
@@ -452,7 +463,8 @@ public:
 	  */
 	 void setMaxSize(std::size_t maxSize) {
 		 // Make sure the current size of m_data complies with maxSize
-		 if (m_data_deq.size() > maxSize) {
+		 // (a value of 0 means that there is no limit)
+		 if (maxSize && m_data_deq.size() > maxSize) {
 			 m_data_deq.resize(maxSize);
 		 }
 
-- 
2.43.0


From 47ad46f6aeb5d7040273f76eae9f094c8ef07414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:54 +0000
Subject: [PATCH 006/107] fix: write and read vector options of configuration
 files completely

---
 include/common/GParserBuilder.hpp | 43 +++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/include/common/GParserBuilder.hpp b/include/common/GParserBuilder.hpp
index b104fe8..8c033e4 100644
--- a/include/common/GParserBuilder.hpp
+++ b/include/common/GParserBuilder.hpp
@@ -1201,7 +1201,7 @@ public:
 	 )
 		 : GFileParsableI(optionNameVar, commentVar, isEssentialVar)
 		 , m_def_val_cnt(def_val)
-		 , m_par_cnt()
+		 , m_par_cnt(def_val)
 	 { /* nothing */ }
 
 	 /***************************************************************************/
@@ -1225,6 +1225,7 @@ protected:
 	  */
 	 void resetDefault(std::vector<parameter_type> const & def_val) {
 		 m_def_val_cnt = def_val;
+		 m_par_cnt = def_val;
 	 }
 
 	 /***************************************************************************/
@@ -1336,8 +1337,16 @@ private:
 		 GVectorParT<parameter_type>::m_par_cnt.clear();
 
 		 std::string ppath = GParsableI::optionName(0) + ".value";
-		 for(auto const& v: pt.get_child(ppath.c_str())) {
-			 GVectorParT<parameter_type>::m_par_cnt.push_back(boost::lexical_cast<parameter_type>(v.second.data()));
+		 auto value_node = pt.get_child_optional(ppath.c_str());
+
+		 // Options that are missing in the file retain their default values
+		 if(not value_node) {
+			 GVectorParT<parameter_type>::m_par_cnt = GVectorParT<parameter_type>::m_def_val_cnt;
+			 return;
+		 }
+
+		 for(auto const& v: *value_node) {
+			 GVectorParT<parameter_type>::m_par_cnt.push_back(v.second.template get_value<parameter_type>());
 		 }
 	 }
 
@@ -1379,12 +1388,14 @@ private:
 		 }
 
 		 // Add the value and default items
-		 auto par_it = GVectorParT<parameter_type>::m_par_cnt.cbegin();
 		 for(auto const& def_val: GVectorParT<parameter_type>::m_def_val_cnt) {
 			 pt.add((GParsableI::optionName(0) + ".default.item").c_str(), def_val);
-			 pt.add((GParsableI::optionName(0) + ".value.item").c_str(), *par_it);
+		 }
 
-			 par_it++;
+		 // There may be more or less values than default values
+		 pt.put((GParsableI::optionName(0) + ".value").c_str(), "");
+		 for(auto const& par_val: GVectorParT<parameter_type>::m_par_cnt) {
+			 pt.add((GParsableI::optionName(0) + ".value.item").c_str(), par_val);
 		 }
 	 }
 
@@ -1495,8 +1506,16 @@ private:
 		 GVectorParT<parameter_type>::m_par_cnt.clear();
 
 		 std::string ppath = GParsableI::optionName(0) + ".value";
-		 for(auto const& v: pt.get_child(ppath.c_str())) {
-			 GVectorParT<parameter_type>::m_par_cnt.push_back(boost::lexical_cast<parameter_type>(v.second.data()));
+		 auto value_node = pt.get_child_optional(ppath.c_str());
+
+		 // Options that are missing in the file retain their default values
+		 if(not value_node) {
+			 GVectorParT<parameter_type>::m_par_cnt = GVectorParT<parameter_type>::m_def_val_cnt;
+			 return;
+		 }
+
+		 for(auto const& v: *value_node) {
+			 GVectorParT<parameter_type>::m_par_cnt.push_back(v.second.template get_value<parameter_type>());
 		 }
 	 }
 
@@ -1539,12 +1558,14 @@ private:
 
 
 		 // Add the value and default items
-		 auto par_it = GVectorParT<parameter_type>::m_par_cnt.cbegin();
 		 for(auto const& def_val: GVectorParT<parameter_type>::m_def_val_cnt) {
 			 pt.add((GParsableI::optionName(0) + ".default.item").c_str(), def_val);
-			 pt.add((GParsableI::optionName(0) + ".value.item").c_str(), *par_it);
+		 }
 
-			 par_it++;
+		 // There may be more or less values than default values
+		 pt.put((GParsableI::optionName(0) + ".value").c_str(), "");
+		 for(auto const& par_val: GVectorParT<parameter_type>::m_par_cnt) {
+			 pt.add((GParsableI::optionName(0) + ".value.item").c_str(), par_val);
 		 }
 	 }
 
-- 
2.43.0


From 6d605f94cb59609be45a420248876b665e2dc401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:54 +0000
Subject: [PATCH 007/107] fix: accept configuration file names without a
 directory part

---
 src/common/GParserBuilder.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common/GParserBuilder.cpp b/src/common/GParserBuilder.cpp
index 18c792d..fbd1e3c 100644
--- a/src/common/GParserBuilder.cpp
+++ b/src/common/GParserBuilder.cpp
@@ -478,8 +478,9 @@ void GParserBuilder::writeConfigFile(
 		}
 
 		// Check that the target path exists and is a directory
-		if (not std::filesystem::exists(std::filesystem::path(configFile).remove_filename()) ||
-			 not std::filesystem::is_directory(std::filesystem::path(configFile).remove_filename())) { // We need to act on a copy
+		// (the absolute path is needed, as the file name might come without a directory)
+		std::filesystem::path const targetDir = std::filesystem::absolute(configFile).remove_filename();
+		if (not std::filesystem::exists(targetDir) || not std::filesystem::is_directory(targetDir)) {
 			throw gemfony_exception(
 				g_error_streamer(DO_LOG,  time_and_place)
 					<< "In GParserBuilder::writeConfigFile(): Error!" << std::endl
-- 
2.43.0


From 5e5c0c8a3e8502b8cb6b98b4c7f6ffe1d237be72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 008/107] fix: use valid XML tag names for templated base
 classes in archives

---
 include/common/GCanvas.hpp                             |  6 +++---
 include/common/GPlotDesigner.hpp                       |  2 +-
 .../GExternalEvaluatorIndividual.hpp                   |  2 +-
 include/geneva/GMultiConstraintT.hpp                   |  4 ++--
 include/geneva/GParameterSetFactory.hpp                |  2 +-
 include/geneva/GParameterSetMultiConstraint.hpp        |  2 +-
 .../geneva/G_OptimizationAlgorithm_ParameterScan.hpp   | 10 +++++-----
 7 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/common/GCanvas.hpp b/include/common/GCanvas.hpp
index 334d279..cfa7be1 100644
--- a/include/common/GCanvas.hpp
+++ b/include/common/GCanvas.hpp
@@ -999,7 +999,7 @@ class GCanvas8 : public GCanvas<8> {
 	 void serialize(Archive &ar, const unsigned int) {
 		 using boost::serialization::make_nvp;
 
-		 ar &BOOST_SERIALIZATION_BASE_OBJECT_NVP(GCanvas<8>);
+		 ar &boost::serialization::make_nvp("GCanvas_8", boost::serialization::base_object<GCanvas<8>>(*this));
 	 }
 	 ///////////////////////////////////////////////////////////////////////
 
@@ -1048,7 +1048,7 @@ class GCanvas16 : public GCanvas<16>
 		using boost::serialization::make_nvp;
 
 		ar
-		& BOOST_SERIALIZATION_BASE_OBJECT_NVP(GCanvas<16>);
+		& boost::serialization::make_nvp("GCanvas_16", boost::serialization::base_object<GCanvas<16>>(*this));
 	}
 	///////////////////////////////////////////////////////////////////////
 
@@ -1098,7 +1098,7 @@ class GCanvas24 : public GCanvas<24> {
 	 void serialize(Archive &ar, const unsigned int) {
 		 using boost::serialization::make_nvp;
 
-		 ar &BOOST_SERIALIZATION_BASE_OBJECT_NVP(GCanvas<24>);
+		 ar &boost::serialization::make_nvp("GCanvas_24", boost::serialization::base_object<GCanvas<24>>(*this));
 	 }
 	 ///////////////////////////////////////////////////////////////////////
 
diff --git a/include/common/GPlotDesigner.hpp b/include/common/GPlotDesigner.hpp
index 6170374..f237ac1 100644
--- a/include/common/GPlotDesigner.hpp
+++ b/include/common/GPlotDesigner.hpp
@@ -411,7 +411,7 @@ class GMarker
 
         ar
         & make_nvp(
-            "GDecorator2<dimensions::Dim2, coordinate_type>"
+            "GDecorator2_Dim2_coordinate_type"
             , boost::serialization::base_object<GDecorator<dimensions::Dim2, coordinate_type>>(*this))
         & BOOST_SERIALIZATION_NVP(m_coordinates)
         & BOOST_SERIALIZATION_NVP(m_marker)
diff --git a/include/geneva-individuals/GExternalEvaluatorIndividual.hpp b/include/geneva-individuals/GExternalEvaluatorIndividual.hpp
index f8b3b67..c207b80 100644
--- a/include/geneva-individuals/GExternalEvaluatorIndividual.hpp
+++ b/include/geneva-individuals/GExternalEvaluatorIndividual.hpp
@@ -258,7 +258,7 @@ class GExternalEvaluatorIndividualFactory
 		 using namespace Gem::Common;
 
 		 ar
-		 & BOOST_SERIALIZATION_BASE_OBJECT_NVP(GFactoryT<GParameterSet>)
+		 & boost::serialization::make_nvp("GFactoryT_GParameterSet", boost::serialization::base_object<GFactoryT<GParameterSet>>(*this))
 		 & BOOST_SERIALIZATION_NVP(m_adProb)
 		 & BOOST_SERIALIZATION_NVP(m_adaptAdProb)
 		 & BOOST_SERIALIZATION_NVP(m_minAdProb)
diff --git a/include/geneva/GMultiConstraintT.hpp b/include/geneva/GMultiConstraintT.hpp
index 1f10ed8..8df02e3 100644
--- a/include/geneva/GMultiConstraintT.hpp
+++ b/include/geneva/GMultiConstraintT.hpp
@@ -319,7 +319,7 @@ class GValidityCheckContainerT :
     void serialize(Archive &ar, const unsigned int) {
         using boost::serialization::make_nvp;
         ar
-        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(GPreEvaluationValidityCheckT<ind_type>);
+        & boost::serialization::make_nvp("GPreEvaluationValidityCheckT_ind_type", boost::serialization::base_object<GPreEvaluationValidityCheckT<ind_type>>(*this));
     }
     ///////////////////////////////////////////////////////////////////////
 
@@ -502,7 +502,7 @@ class GCheckCombinerT:
     void serialize(Archive &ar, const unsigned int) {
         using boost::serialization::make_nvp;
         ar
-        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(GPreEvaluationValidityCheckT<ind_type>)
+        & boost::serialization::make_nvp("GPreEvaluationValidityCheckT_ind_type", boost::serialization::base_object<GPreEvaluationValidityCheckT<ind_type>>(*this))
         & BOOST_SERIALIZATION_NVP(combinerPolicy_);
     }
     ///////////////////////////////////////////////////////////////////////
diff --git a/include/geneva/GParameterSetFactory.hpp b/include/geneva/GParameterSetFactory.hpp
index 91839ca..d55c4e0 100644
--- a/include/geneva/GParameterSetFactory.hpp
+++ b/include/geneva/GParameterSetFactory.hpp
@@ -66,7 +66,7 @@ class GParameterSetFactory
 		 using boost::serialization::make_nvp;
 
 		 ar
-		 & BOOST_SERIALIZATION_BASE_OBJECT_NVP(Gem::Common::GFactoryT<GParameterSet>)
+		 & boost::serialization::make_nvp("GFactoryT_GParameterSet", boost::serialization::base_object<Gem::Common::GFactoryT<GParameterSet>>(*this))
 		 & BOOST_SERIALIZATION_NVP(m_preProcessor)
 		 & BOOST_SERIALIZATION_NVP(m_postProcessor);
 	 }
diff --git a/include/geneva/GParameterSetMultiConstraint.hpp b/include/geneva/GParameterSetMultiConstraint.hpp
index f2114da..96c8420 100644
--- a/include/geneva/GParameterSetMultiConstraint.hpp
+++ b/include/geneva/GParameterSetMultiConstraint.hpp
@@ -72,7 +72,7 @@ class GParameterSetConstraint :
     void serialize(Archive &ar, const unsigned int) {
         using boost::serialization::make_nvp;
         ar
-        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(GPreEvaluationValidityCheckT<GParameterSet>);
+        & boost::serialization::make_nvp("GPreEvaluationValidityCheckT_GParameterSet", boost::serialization::base_object<GPreEvaluationValidityCheckT<GParameterSet>>(*this));
     }
     ///////////////////////////////////////////////////////////////////////
 public:
diff --git a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
index 014efcc..6fa0762 100644
--- a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
+++ b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
@@ -165,7 +165,7 @@ class baseScanParT
         using boost::serialization::make_nvp;
 
         ar
-        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(Gem::Common::GPODVectorT<T>)
+        & boost::serialization::make_nvp("GPODVectorT_T", boost::serialization::base_object<Gem::Common::GPODVectorT<T>>(*this))
         & BOOST_SERIALIZATION_NVP(m_var)
         & BOOST_SERIALIZATION_NVP(m_step)
         & BOOST_SERIALIZATION_NVP(m_nSteps)
@@ -443,7 +443,7 @@ class bScanPar
         using boost::serialization::make_nvp;
 
         ar
-        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(baseScanParT<bool>);
+        & boost::serialization::make_nvp("baseScanParT_bool", boost::serialization::base_object<baseScanParT<bool>>(*this));
     }
 
     ///////////////////////////////////////////////////////////////////////
@@ -485,7 +485,7 @@ class int32ScanPar
         using boost::serialization::make_nvp;
 
         ar
-        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(baseScanParT<std::int32_t>);
+        & boost::serialization::make_nvp("baseScanParT_int32_t", boost::serialization::base_object<baseScanParT<std::int32_t>>(*this));
     }
 
     ///////////////////////////////////////////////////////////////////////
@@ -527,7 +527,7 @@ class dScanPar
         using boost::serialization::make_nvp;
 
         ar
-        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(baseScanParT<double>);
+        & boost::serialization::make_nvp("baseScanParT_double", boost::serialization::base_object<baseScanParT<double>>(*this));
     }
 
     ///////////////////////////////////////////////////////////////////////
@@ -570,7 +570,7 @@ class fScanPar
         using boost::serialization::make_nvp;
 
         ar
-        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(baseScanParT<float>);
+        & boost::serialization::make_nvp("baseScanParT_float", boost::serialization::base_object<baseScanParT<float>>(*this));
     }
 
     ///////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 3c3a55cc85587e846f12df4bf9b10395b3460901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:52 +0000
Subject: [PATCH 009/107] fix: copy the number of steps and the data of scan
 parameters

---
 include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
index 6fa0762..78dcc4a 100644
--- a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
+++ b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
@@ -212,9 +212,10 @@ public:
      * random number generator.
      */
     baseScanParT(const baseScanParT<T> &cp)
-        : m_var(cp.m_var)
+        : Gem::Common::GPODVectorT<T>(cp)
+        , m_var(cp.m_var)
         , m_step(cp.m_step)
-        , m_nSteps(cp.m_step)
+        , m_nSteps(cp.m_nSteps)
         , m_lower(cp.m_lower)
         , m_upper(cp.m_upper)
         , m_randomScan(cp.m_randomScan)
-- 
2.43.0


From ad826768e8e0c553cc491d1cdfa5206408088901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:52 +0000
Subject: [PATCH 010/107] fix: keep random integer scans inside the requested
 range

---
 include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
index 78dcc4a..7a85ba7 100644
--- a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
+++ b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
@@ -422,7 +422,7 @@ inline std::int32_t baseScanParT<std::int32_t>::getRandomItem(
         gr
         , std::uniform_int_distribution<std::int32_t>::param_type(
             m_lower
-            , m_upper + 1
+            , m_upper
         ));
 }
 
-- 
2.43.0


From 532733d1856eb1828693b37251f31aaf0ffa4136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:55 +0000
Subject: [PATCH 011/107] fix: insert nothing when no items are requested from
 GPtrVectorT::insert_noclone()

---
 include/common/GPtrVectorT.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/common/GPtrVectorT.hpp b/include/common/GPtrVectorT.hpp
index c008f84..f37cba2 100644
--- a/include/common/GPtrVectorT.hpp
+++ b/include/common/GPtrVectorT.hpp
@@ -526,6 +526,9 @@ public:
 			);
 		}
 
+		// Nothing to do, if no items were requested
+		if (0 == amount) return;
+
 		std::size_t iterator_pos = pos - m_data_cnt.begin();
 		// Create (amount-1) clones
 		for (std::size_t i = 0; i < amount - 1; i++) {
-- 
2.43.0


From e2df83ec634749864b996900bbe410b508a08132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:55 +0000
Subject: [PATCH 012/107] fix: accept resizing an empty GPtrVectorT to size 0

---
 include/common/GPtrVectorT.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/common/GPtrVectorT.hpp b/include/common/GPtrVectorT.hpp
index f37cba2..da15418 100644
--- a/include/common/GPtrVectorT.hpp
+++ b/include/common/GPtrVectorT.hpp
@@ -636,6 +636,9 @@ public:
 			);
 		}
 
+		// Nothing to do for an empty collection that stays empty
+		if (this->empty()) return;
+
 		this->resize_clone(amount, this->at(0));
 	}
 
-- 
2.43.0


From ff8d6cb36b049060a0c047bf0fd2b0bb0ad4a8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:04 +0000
Subject: [PATCH 013/107] fix: replace objects of another type when copying
 containers of cloneable objects

---
 include/common/GCommonHelperFunctionsT.hpp |  5 +++-
 include/common/GPtrVectorT.hpp             | 31 +---------------------
 2 files changed, 5 insertions(+), 31 deletions(-)

diff --git a/include/common/GCommonHelperFunctionsT.hpp b/include/common/GCommonHelperFunctionsT.hpp
index 12c281c..c69dc19 100644
--- a/include/common/GCommonHelperFunctionsT.hpp
+++ b/include/common/GCommonHelperFunctionsT.hpp
@@ -471,7 +471,10 @@ void copyCloneableSmartPointer (
 	if(not from) {
 		to.reset();
 	} else {
-		if(not to) {
+		T const& from_ref = *from;
+		T const *to_ptr = to.get();
+		// Objects of different (derived) type cannot be loaded into each other
+		if(not to_ptr || typeid(from_ref) != typeid(*to_ptr)) {
 			to = from->T::template clone<T>();
 		} else {
 			to->T::load(from);
diff --git a/include/common/GPtrVectorT.hpp b/include/common/GPtrVectorT.hpp
index da15418..8d9cff5 100644
--- a/include/common/GPtrVectorT.hpp
+++ b/include/common/GPtrVectorT.hpp
@@ -178,36 +178,7 @@ public:
 	 * @return A reference to this object
 	 */
 	 GPtrVectorT<T,B> &operator=(std::vector<std::shared_ptr<T>> const& cp) {
-		typename std::vector<std::shared_ptr <T>>::const_iterator cp_it;
-		typename std::vector<std::shared_ptr <T>>::iterator it;
-
-		std::size_t localSize = m_data_cnt.size();
-		std::size_t cpSize = cp.size();
-
-		if (cpSize == localSize) { // The most likely case
-			for (it = m_data_cnt.begin(), cp_it = cp.begin(); it != m_data_cnt.end(); ++it, ++cp_it) {
-				(*it)->B::load(*cp_it);
-			}
-		} else if (cpSize > localSize) {
-			// First copy the initial elements
-			for (it = m_data_cnt.begin(), cp_it = cp.begin(); it != m_data_cnt.end(); ++it, ++cp_it) {
-				(*it)->B::load(*cp_it);
-			}
-
-			// Then attach the remaining objects from cp
-			for (cp_it = cp.begin() + localSize; cp_it != cp.end(); ++cp_it) {
-				m_data_cnt.push_back((*cp_it)->T::template clone<T>());
-			}
-		} else if (cpSize < localSize) {
-			// First get rid of surplus items
-			m_data_cnt.resize(cpSize);
-
-			// Then copy the elements
-			for (it = m_data_cnt.begin(), cp_it = cp.begin(); it != m_data_cnt.end(); ++it, ++cp_it) {
-				(*it)->B::load(*cp_it);
-			}
-		}
-
+		Gem::Common::copyCloneableSmartPointerContainer(cp, m_data_cnt);
 		return *this;
 	}
 
-- 
2.43.0


From 446c6acebbbda131dae0047e67c71cd46ce22a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:48 +0000
Subject: [PATCH 014/107] fix: do not hand out the same seeds again once the
 seed collection of GRandomFactory is used up

---
 src/hap/GRandomFactory.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/hap/GRandomFactory.cpp b/src/hap/GRandomFactory.cpp
index 6a6fd41..d7d2df4 100644
--- a/src/hap/GRandomFactory.cpp
+++ b/src/hap/GRandomFactory.cpp
@@ -148,7 +148,16 @@ seed_type GRandomFactory::getSeed() {
 
 	// Refill at the start of seeding or when all seeds have been used
 	if(not m_seeding_has_started || m_seed_cit==m_seed_collection.end()) {
-		m_seed_seq.generate(m_seed_collection.begin(), m_seed_collection.end());
+		if(not m_seeding_has_started) {
+			m_seed_seq.generate(m_seed_collection.begin(), m_seed_collection.end());
+		} else {
+			// A std::seed_seq always generates the same numbers. Re-seeding is
+			// needed in order not to hand out the same seeds again
+			std::seed_seq{
+				m_nondet_rng(), m_nondet_rng(), m_nondet_rng(), m_nondet_rng()
+				, m_nondet_rng(), m_nondet_rng(), m_nondet_rng(), m_nondet_rng()
+			}.generate(m_seed_collection.begin(), m_seed_collection.end());
+		}
 		m_seed_cit=m_seed_collection.begin();
 		m_seeding_has_started.store(true);
 	}
-- 
2.43.0


From 6fbdeedfe51e125418862050133a415aa8351a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:48 +0000
Subject: [PATCH 015/107] fix: make bi_normal_distribution assignable

---
 include/hap/GRandomDistributionsT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hap/GRandomDistributionsT.hpp b/include/hap/GRandomDistributionsT.hpp
index c01f914..3ebf394 100644
--- a/include/hap/GRandomDistributionsT.hpp
+++ b/include/hap/GRandomDistributionsT.hpp
@@ -305,7 +305,7 @@ private:
 		 ,fp_type(DEF_BINORM_SIGMA2)
 		 ,fp_type(DEF_BINORM_DISTANCE)
 	 }; ///< The actual parameter values being used
-	 const param_type m_params_store{m_params}; ///< The values the distribution will be reset to when reset() is called
+	 param_type m_params_store{m_params}; ///< The values the distribution will be reset to when reset() is called
 };
 
 /******************************************************************************/
-- 
2.43.0


From c23c8a0e8559312709ef61a6af5000f5807084f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:56 +0000
Subject: [PATCH 016/107] fix: remember the number of producer threads when
 threads are added to a running GRandomFactory

---
 src/hap/GRandomFactory.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hap/GRandomFactory.cpp b/src/hap/GRandomFactory.cpp
index d7d2df4..e67b0ef 100644
--- a/src/hap/GRandomFactory.cpp
+++ b/src/hap/GRandomFactory.cpp
@@ -227,6 +227,8 @@ void GRandomFactory::setNProducerThreads(const std::uint16_t &nProducerThreads)
 
 			return;
 		}
+
+		m_n_producer_threads = nProducerThreads_local;
 	} else { // Double-checked locking pattern
 		// Here it appears that no threads were running. We do need to check again, though (DLCP)
 		std::unique_lock<std::mutex> tc_lk(m_thread_creation_mutex);
-- 
2.43.0


From 60065f6f1094c6b0b6d8165c8e6d42ba6c652db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:13 +0000
Subject: [PATCH 017/107] fix: copy, load and compare the random-crash settings
 of GParameterSet

---
 src/geneva/GParameterSet.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/geneva/GParameterSet.cpp b/src/geneva/GParameterSet.cpp
index 41f1628..cf91161 100644
--- a/src/geneva/GParameterSet.cpp
+++ b/src/geneva/GParameterSet.cpp
@@ -231,6 +231,8 @@ GParameterSet::GParameterSet(GParameterSet const &cp)
    , m_max_unsuccessful_adaptions(cp.m_max_unsuccessful_adaptions)
    , m_max_retries_until_valid(cp.m_max_retries_until_valid)
    , m_n_adaptions(cp.m_n_adaptions)
+   , m_useRandomCrash(cp.m_useRandomCrash)
+   , m_randomCrashProb(cp.m_randomCrashProb)
 {
 	// Copy the personality pointer over
 	Gem::Common::copyCloneableSmartPointer(cp.m_pt_ptr, m_pt_ptr);
@@ -279,6 +281,8 @@ void GParameterSet::compare_(
 	compare_t(IDENTITY(m_max_unsuccessful_adaptions, p_load->m_max_unsuccessful_adaptions), token);
 	compare_t(IDENTITY(m_max_retries_until_valid, p_load->m_max_retries_until_valid), token);
 	compare_t(IDENTITY(m_n_adaptions, p_load->m_n_adaptions), token);
+	compare_t(IDENTITY(m_useRandomCrash, p_load->m_useRandomCrash), token);
+	compare_t(IDENTITY(m_randomCrashProb, p_load->m_randomCrashProb), token);
 
 	// React on deviations from the expectation
 	token.evaluate();
@@ -1616,6 +1620,8 @@ void GParameterSet::load_(const GObject *cp) {
 	m_max_unsuccessful_adaptions = p_load->m_max_unsuccessful_adaptions;
 	m_max_retries_until_valid = p_load->m_max_retries_until_valid;
 	m_n_adaptions = p_load->m_n_adaptions;
+	m_useRandomCrash = p_load->m_useRandomCrash;
+	m_randomCrashProb = p_load->m_randomCrashProb;
 
 	Gem::Common::copyCloneableSmartPointer(p_load->m_pt_ptr, m_pt_ptr);
 	Gem::Common::copyCloneableSmartPointer(p_load->m_individual_constraint_ptr, m_individual_constraint_ptr);
-- 
2.43.0


From 545fd9defc944bbebde77a4ab4ccf169ed386966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:13 +0000
Subject: [PATCH 018/107] fix: copy the iteration offset of optimization
 algorithms, so that clones compare equal

---
 src/geneva/G_OptimizationAlgorithm_Base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_Base.cpp b/src/geneva/G_OptimizationAlgorithm_Base.cpp
index a960af7..56bb243 100644
--- a/src/geneva/G_OptimizationAlgorithm_Base.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_Base.cpp
@@ -189,7 +189,7 @@ G_OptimizationAlgorithm_Base::G_OptimizationAlgorithm_Base(const G_OptimizationA
 	: GObject(cp)
 	  , Gem::Common::GPtrVectorT<GParameterSet, Gem::Geneva::GObject>(cp)
 	  , m_iteration(cp.m_iteration)
-	  , m_offset(DEFAULTOFFSET)
+	  , m_offset(cp.m_offset)
 	  , m_minIteration(cp.m_minIteration)
 	  , m_maxIteration(cp.m_maxIteration)
 	  , m_maxStallIteration(cp.m_maxStallIteration)
-- 
2.43.0


From 4cfa4051be051744327565bf31c77916b16230d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:13 +0000
Subject: [PATCH 019/107] fix: serialize the best individuals of the last
 iteration

---
 include/geneva/G_OptimizationAlgorithm_Base.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/geneva/G_OptimizationAlgorithm_Base.hpp b/include/geneva/G_OptimizationAlgorithm_Base.hpp
index e8b4114..9fe954d 100644
--- a/include/geneva/G_OptimizationAlgorithm_Base.hpp
+++ b/include/geneva/G_OptimizationAlgorithm_Base.hpp
@@ -204,6 +204,7 @@ private:
         & BOOST_SERIALIZATION_NVP(m_reportIteration)
         & BOOST_SERIALIZATION_NVP(m_nRecordbestGlobalIndividuals)
         & BOOST_SERIALIZATION_NVP(m_bestGlobalIndividuals_pq)
+        & BOOST_SERIALIZATION_NVP(m_bestIterationIndividuals_pq)
         & BOOST_SERIALIZATION_NVP(m_defaultPopulationSize)
         & BOOST_SERIALIZATION_NVP(m_bestKnownPrimaryFitness)
         & BOOST_SERIALIZATION_NVP(m_bestCurrentPrimaryFitness)
@@ -253,6 +254,7 @@ private:
         & BOOST_SERIALIZATION_NVP(m_reportIteration)
         & BOOST_SERIALIZATION_NVP(m_nRecordbestGlobalIndividuals)
         & BOOST_SERIALIZATION_NVP(m_bestGlobalIndividuals_pq)
+        & BOOST_SERIALIZATION_NVP(m_bestIterationIndividuals_pq)
         & BOOST_SERIALIZATION_NVP(m_defaultPopulationSize)
         & BOOST_SERIALIZATION_NVP(m_bestKnownPrimaryFitness)
         & BOOST_SERIALIZATION_NVP(m_bestCurrentPrimaryFitness)
-- 
2.43.0


From c0651952ddda1ed0062c549a30e5e746d376b54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:35 +0000
Subject: [PATCH 020/107] fix: check the size of assigned parameter lists
 against the selected parameters

---
 include/geneva/GParameterSet.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/geneva/GParameterSet.hpp b/include/geneva/GParameterSet.hpp
index 9b7ec26..ee16ed3 100644
--- a/include/geneva/GParameterSet.hpp
+++ b/include/geneva/GParameterSet.hpp
@@ -672,14 +672,14 @@ public:
         , activityMode const &am = activityMode::DEFAULTACTIVITYMODE
     ) {
 #ifdef DEBUG
-        if (countParameters<par_type>() != parVec.size()) {
+        if (countParameters<par_type>(am) != parVec.size()) {
             throw gemfony_exception(
                 g_error_streamer(
                     DO_LOG
                     , time_and_place
                 )
                     << "In GParameterSet::assignValueVector(const std::vector<pat_type>&):" << std::endl
-                    << "Sizes don't match: " << countParameters<par_type>() << " / " << parVec.size() << std::endl
+                    << "Sizes don't match: " << countParameters<par_type>(am) << " / " << parVec.size() << std::endl
             );
         }
 #endif /* DEBUG */
-- 
2.43.0


From b2cd2da8abca5efa6013c8829028a176c507016e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:35 +0000
Subject: [PATCH 021/107] fix: honour the activity mode when assigning integer
 and boolean values

---
 include/geneva/GParameterBase.hpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/geneva/GParameterBase.hpp b/include/geneva/GParameterBase.hpp
index 94e3491..4f20ef7 100644
--- a/include/geneva/GParameterBase.hpp
+++ b/include/geneva/GParameterBase.hpp
@@ -1076,11 +1076,13 @@ inline void GParameterBase::assignValueVector<std::int32_t>(
     , std::size_t &pos
     , activityMode am
 ) {
-    this->assignInt32ValueVector(
-        parVec
-        , pos
-        , am
-    );
+    if (this->modifiableAmMatchOrHandover(am)) {
+        this->assignInt32ValueVector(
+            parVec
+            , pos
+            , am
+        );
+    }
 }
 
 /******************************************************************************/
@@ -1096,11 +1098,13 @@ inline void GParameterBase::assignValueVector<bool>(
     , std::size_t &pos
     , activityMode am
 ) {
-    this->assignBooleanValueVector(
-        parVec
-        , pos
-        , am
-    );
+    if (this->modifiableAmMatchOrHandover(am)) {
+        this->assignBooleanValueVector(
+            parVec
+            , pos
+            , am
+        );
+    }
 }
 
 /******************************************************************************/
-- 
2.43.0


From 61545f877bb88009e12fa3062637e80452dc949b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:58 +0000
Subject: [PATCH 022/107] fix: keep an error flagged by the user during
 processing

---
 include/courtier/GProcessingContainerT.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/courtier/GProcessingContainerT.hpp b/include/courtier/GProcessingContainerT.hpp
index b683669..d669c43 100644
--- a/include/courtier/GProcessingContainerT.hpp
+++ b/include/courtier/GProcessingContainerT.hpp
@@ -306,7 +306,10 @@ public:
 			 m_processing_time = std::chrono::duration<double>(afterProcessing - afterPreProcessing).count();
 			 m_post_processing_time = std::chrono::duration<double>(afterPostProcessing - afterProcessing).count();
 
-			 m_processing_status = processingStatus::PROCESSED;
+			 // An error flagged by the user during processing must not get lost
+			 if(!this->has_errors()) {
+				 m_processing_status = processingStatus::PROCESSED;
+			 }
 		 } catch(boost::exception& e) {
 			 // Let the audience know we had an error
 			 m_processing_status = processingStatus::EXCEPTION_CAUGHT;
-- 
2.43.0


From f25d8583683d79f890612e7a776dc3dd6889fea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:58 +0000
Subject: [PATCH 023/107] fix: load the checks of a GCheckCombinerT

---
 include/geneva/GMultiConstraintT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geneva/GMultiConstraintT.hpp b/include/geneva/GMultiConstraintT.hpp
index 8df02e3..f727489 100644
--- a/include/geneva/GMultiConstraintT.hpp
+++ b/include/geneva/GMultiConstraintT.hpp
@@ -656,7 +656,7 @@ protected:
         );
 
         // Load our parent class'es data ...
-        GPreEvaluationValidityCheckT<ind_type>::load_(cp);
+        GValidityCheckContainerT<ind_type>::load_(cp);
 
         // and then our local data
         combinerPolicy_ = p_load->combinerPolicy_;
-- 
2.43.0


From 48bf7eb786434a13f72bc642a27adc5f50b24288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:58 +0000
Subject: [PATCH 024/107] fix: report sigma2 of a bi-gauss adaptor when asked
 for it

---
 include/geneva/GNumBiGaussAdaptorT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geneva/GNumBiGaussAdaptorT.hpp b/include/geneva/GNumBiGaussAdaptorT.hpp
index d4c5d28..53739db 100644
--- a/include/geneva/GNumBiGaussAdaptorT.hpp
+++ b/include/geneva/GNumBiGaussAdaptorT.hpp
@@ -789,7 +789,7 @@ protected:
         if (property == "sigma1") {
             data.push_back(boost::any(sigma1_));
         } else if (property == "sigma2") {
-            data.push_back(boost::any(sigma1_));
+            data.push_back(boost::any(sigma2_));
         } else if (property == "delta") {
             data.push_back(boost::any(delta_));
         } else {
-- 
2.43.0


From 71b70d76bfec29724e80595132951ec3e9caccef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:58 +0000
Subject: [PATCH 025/107] fix: write the values of collections to where they
 belong in a property tree

---
 include/geneva/GConstrainedNumCollectionT.hpp | 2 +-
 include/geneva/GParameterCollectionT.hpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/geneva/GConstrainedNumCollectionT.hpp b/include/geneva/GConstrainedNumCollectionT.hpp
index 06822e7..5a9782c 100644
--- a/include/geneva/GConstrainedNumCollectionT.hpp
+++ b/include/geneva/GConstrainedNumCollectionT.hpp
@@ -403,7 +403,7 @@ public:
         for (cit = this->begin(); cit != this->end(); ++cit) {
             pos = cit - this->begin();
             ptr.put(
-                baseName + "values.value" + Gem::Common::to_string(pos)
+                baseName + ".values.value" + Gem::Common::to_string(pos)
                 , *cit
             );
         }
diff --git a/include/geneva/GParameterCollectionT.hpp b/include/geneva/GParameterCollectionT.hpp
index 86b2995..bd617d7 100644
--- a/include/geneva/GParameterCollectionT.hpp
+++ b/include/geneva/GParameterCollectionT.hpp
@@ -214,7 +214,7 @@ public:
                 , cit
             );
             ptr.put(
-                baseName + "values.value" + Gem::Common::to_string(pos)
+                baseName + ".values.value" + Gem::Common::to_string(pos)
                 , *cit
             );
         }
-- 
2.43.0


From 18421b619879148972c5558e312e424609e56078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:53 +0000
Subject: [PATCH 026/107] fix: avoid integer overflows when mapping constrained
 integers to their value range

---
 include/geneva/GConstrainedIntT.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/geneva/GConstrainedIntT.hpp b/include/geneva/GConstrainedIntT.hpp
index 7f5073b..1485f54 100644
--- a/include/geneva/GConstrainedIntT.hpp
+++ b/include/geneva/GConstrainedIntT.hpp
@@ -196,20 +196,23 @@ public:
             // The result
             int_type mapping = int_type(0);
 
+            // We calculate with 64 bit, as intermediate results may be larger than int_type
+            const std::int64_t lower = lowerBoundary, upper = upperBoundary, value = val;
+
             // Find out the size of the value range. Note that both boundaries
             // are included, so that we need to add 1 to the difference.
-            int_type value_range = upperBoundary - lowerBoundary + int_type(1);
+            const std::int64_t value_range = upper - lower + 1;
 
             if (val < lowerBoundary) {
                 // Find out how many full value ranges val is below the lower boundary.
                 // We use integer division here, so 13/4 would be 3.
-                int_type nBelowLowerBoundary = (lowerBoundary - (val + int_type(1))) / value_range;
+                const std::int64_t nBelowLowerBoundary = (lower - (value + 1)) / value_range;
 
                 // We are dealing with descending (nBelowLowerBoundary is even) and
                 // ascending ranges (nBelowLowerBoundary is odd), which need to be treated differently
 
                 // Transfer the value into the allowed region
-                mapping = val + (value_range * (nBelowLowerBoundary + int_type(1)));
+                mapping = static_cast<int_type>(value + (value_range * (nBelowLowerBoundary + 1)));
                 if (nBelowLowerBoundary % 2 == 0) { // nBelowLowerBoundary is even
                     // Revert the value to a descending sequence
                     mapping = revert(mapping);
@@ -217,13 +220,13 @@ public:
             } else { // val > getUpperBoundary()
                 // Find out how many full value ranges val is above the upper boundary.
                 // We use integer division here, so 13/4 would be 3.
-                int_type nAboveUpperBoundary = (val - upperBoundary - int_type(1)) / value_range;
+                const std::int64_t nAboveUpperBoundary = (value - upper - 1) / value_range;
 
                 // We are dealing with descending (nAboveUpperBoundary is even) and
                 // ascending ranges (nAboveUpperBoundary is odd), which need to be treated differently
 
                 // Transfer into the allowed region
-                mapping = val - (value_range * (nAboveUpperBoundary + int_type(1)));
+                mapping = static_cast<int_type>(value - (value_range * (nAboveUpperBoundary + 1)));
                 if (nAboveUpperBoundary % 2 == 0) { // nAboveUpperBoundary is even
                     // Revert, as we are dealing with a descending value range
                     mapping = revert(mapping);
-- 
2.43.0


From 622d154370cb481085a92408a66a76742d502f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:53 +0000
Subject: [PATCH 027/107] fix: accept subnormal values of constrained
 parameters (zero as upper boundary creates one)

---
 include/geneva/GConstrainedFPT.hpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/include/geneva/GConstrainedFPT.hpp b/include/geneva/GConstrainedFPT.hpp
index c05dc3b..311f208 100644
--- a/include/geneva/GConstrainedFPT.hpp
+++ b/include/geneva/GConstrainedFPT.hpp
@@ -277,6 +277,7 @@ public:
 #ifdef DEBUG
 		 switch(std::fpclassify(val)) {
 			 case FP_NORMAL:
+			 case FP_SUBNORMAL:
 			 case FP_ZERO:      {
 				 /* nothing */
 			 } break;
@@ -297,14 +298,6 @@ public:
 				 );
 			 } break;
 
-			 case FP_SUBNORMAL: {
-				 throw gemfony_exception(
-					 g_error_streamer(DO_LOG, time_and_place)
-						 << "In GConstrainedFPT::transfer(): Error" << std::endl
-						 << "val is subnormal" << std::endl
-				 );
-			 } break;
-
 			 default: {
 				 throw gemfony_exception(
 					 g_error_streamer(DO_LOG, time_and_place)
-- 
2.43.0


From a513bb00033e842d4a194233d4464a94bd5130b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:53 +0000
Subject: [PATCH 028/107] fix: keep rounding errors from moving constrained
 parameters out of their value range

---
 include/geneva/GConstrainedFPNumCollectionT.hpp | 4 ++++
 include/geneva/GConstrainedFPT.hpp              | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/geneva/GConstrainedFPNumCollectionT.hpp b/include/geneva/GConstrainedFPNumCollectionT.hpp
index aafd3b9..adeb1a2 100644
--- a/include/geneva/GConstrainedFPNumCollectionT.hpp
+++ b/include/geneva/GConstrainedFPNumCollectionT.hpp
@@ -203,6 +203,10 @@ public:
                 mapping = -val + (fp_type(region - 1) * (upperBoundary - lowerBoundary) + 2 * upperBoundary);
             }
 
+            // Rounding errors must not take us out of the allowed value range
+            if (mapping < lowerBoundary) mapping = lowerBoundary;
+            if (mapping > upperBoundary) mapping = upperBoundary;
+
             return mapping;
         }
 
diff --git a/include/geneva/GConstrainedFPT.hpp b/include/geneva/GConstrainedFPT.hpp
index 311f208..95a8c11 100644
--- a/include/geneva/GConstrainedFPT.hpp
+++ b/include/geneva/GConstrainedFPT.hpp
@@ -347,6 +347,10 @@ public:
 				 mapping = -localVal + ((long double)(region-1)*(upperBoundary - lowerBoundary) + 2*upperBoundary);
 			 }
 
+			 // Rounding errors must not take us out of the allowed value range
+			 if(mapping < lowerBoundary) mapping = lowerBoundary;
+			 if(mapping > upperBoundary) mapping = upperBoundary;
+
 			 // fabs(mapping) will always be <= fabs(val), so this cast should never fail (if val was a valid fp value)
 			 return boost::numeric_cast<fp_type>(mapping);
 		 }
-- 
2.43.0


From 95afcd95645f13d9d82b510eccce405ed4226fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:53 +0000
Subject: [PATCH 029/107] fix: use a 64 bit region counter for constrained
 floating point collections

---
 include/geneva/GConstrainedFPNumCollectionT.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/geneva/GConstrainedFPNumCollectionT.hpp b/include/geneva/GConstrainedFPNumCollectionT.hpp
index adeb1a2..a1faecc 100644
--- a/include/geneva/GConstrainedFPNumCollectionT.hpp
+++ b/include/geneva/GConstrainedFPNumCollectionT.hpp
@@ -184,14 +184,14 @@ public:
             // Find out which region the value is in (compare figure transferFunction.pdf
             // that should have been delivered with this software). Note that boost::numeric_cast<>
             // may throw - exceptions must be caught in surrounding functions.
-            std::int32_t region = 0;
+            std::int64_t region = 0;
 
 #ifdef DEBUG
-            region = boost::numeric_cast<std::int32_t>(
+            region = boost::numeric_cast<std::int64_t>(
                 Gem::Common::gfloor(
                     (fp_type(val) - fp_type(lowerBoundary)) / (fp_type(upperBoundary) - fp_type(lowerBoundary))));
 #else
-            region =	static_cast<std::int32_t>(Gem::Common::gfloor((fp_type(val) - fp_type(lowerBoundary)) / (fp_type(upperBoundary) - fp_type(lowerBoundary))));
+            region =	static_cast<std::int64_t>(Gem::Common::gfloor((fp_type(val) - fp_type(lowerBoundary)) / (fp_type(upperBoundary) - fp_type(lowerBoundary))));
 #endif
 
             // Check whether we are in an odd or an even range and calculate the
-- 
2.43.0


From c31efc34641c60ab1c44a3ae8db80091fa163ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:53 +0000
Subject: [PATCH 030/107] fix: keep the externally visible values when the
 boundaries of a collection are changed

---
 include/geneva/GConstrainedNumCollectionT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geneva/GConstrainedNumCollectionT.hpp b/include/geneva/GConstrainedNumCollectionT.hpp
index 5a9782c..d253067 100644
--- a/include/geneva/GConstrainedNumCollectionT.hpp
+++ b/include/geneva/GConstrainedNumCollectionT.hpp
@@ -255,7 +255,7 @@ public:
     virtual void setBoundaries(const num_type &lower, const num_type &upper) BASE {
         std::vector<num_type> currentValues;
         for (std::size_t pos = 0; pos < this->size(); pos++) {
-            currentValues.push_back(GParameterCollectionT<num_type>::value(pos));
+            currentValues.push_back(this->value(pos));
 
             // Check that the value is inside the allowed range
             if (currentValues[pos] < lower || currentValues[pos] > upper) {
-- 
2.43.0


From a4fc559235f6f00e6b89abb44d1fad1dbd664a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:45 +0000
Subject: [PATCH 031/107] fix: serialize the checks of a validity check
 container

---
 include/geneva/GMultiConstraintT.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/geneva/GMultiConstraintT.hpp b/include/geneva/GMultiConstraintT.hpp
index f727489..02eaef6 100644
--- a/include/geneva/GMultiConstraintT.hpp
+++ b/include/geneva/GMultiConstraintT.hpp
@@ -319,7 +319,8 @@ class GValidityCheckContainerT :
     void serialize(Archive &ar, const unsigned int) {
         using boost::serialization::make_nvp;
         ar
-        & boost::serialization::make_nvp("GPreEvaluationValidityCheckT_ind_type", boost::serialization::base_object<GPreEvaluationValidityCheckT<ind_type>>(*this));
+        & boost::serialization::make_nvp("GPreEvaluationValidityCheckT_ind_type", boost::serialization::base_object<GPreEvaluationValidityCheckT<ind_type>>(*this))
+        & BOOST_SERIALIZATION_NVP(validityChecks_);
     }
     ///////////////////////////////////////////////////////////////////////
 
@@ -502,7 +503,7 @@ class GCheckCombinerT:
     void serialize(Archive &ar, const unsigned int) {
         using boost::serialization::make_nvp;
         ar
-        & boost::serialization::make_nvp("GPreEvaluationValidityCheckT_ind_type", boost::serialization::base_object<GPreEvaluationValidityCheckT<ind_type>>(*this))
+        & boost::serialization::make_nvp("GValidityCheckContainerT_ind_type", boost::serialization::base_object<GValidityCheckContainerT<ind_type>>(*this))
         & BOOST_SERIALIZATION_NVP(combinerPolicy_);
     }
     ///////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 207bee967d62484fa56ba7f6e31f0d3cf49ed490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:07 +0000
Subject: [PATCH 032/107] fix: comparison of polymorphic members of different
 types is an inequality, not an error

---
 include/common/GExpectationChecksT.hpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/common/GExpectationChecksT.hpp b/include/common/GExpectationChecksT.hpp
index 0e6f9d8..dc5ba97 100644
--- a/include/common/GExpectationChecksT.hpp
+++ b/include/common/GExpectationChecksT.hpp
@@ -1052,6 +1052,14 @@ void compare(
 
             // If we reach this line, then both pointers have content
 
+            // Objects of different (derived) types are different by definition
+            if (typeid(*x) != typeid(*y)) {
+                error
+                    << "Content of " << x_name << " and " << y_name << " has different types." << std::endl
+                    << "Thus the expectation of " << expectation_str << " was violated" << std::endl;
+                break;
+            }
+
             { // Check whether the content differs
                 try {
                     x->compare(
@@ -1085,6 +1093,9 @@ void compare(
                     << "Both smart pointers are empty and are thus considered equal." << std::endl
                     << "Thus the expectation of " << expectation_str << " was violated:" << std::endl;
                 break; // The expectation was not met
+            } else if (typeid(*x) != typeid(*y)) { // Different types are different by definition
+                expectationMet = true;
+                break;
             }
 
             // Check whether the content differs
@@ -1181,6 +1192,13 @@ void compare(
                     break;  // terminate the loop
                 } else if (not*x_it && not*y_it) { // No content to check. Both smart pointers can be considered equal
                     continue; // Go on with next iteration in the loop
+                } else if (typeid(**x_it) != typeid(**y_it)) { // Different types are different by definition
+                    error
+                        << "Content of " << x_name << "[" << index << "] and " << y_name << "[" << index
+                        << "] has different types." << std::endl
+                        << "Thus the expectation of " << expectation_str << " was violated" << std::endl;
+                    foundDeviation = true;
+                    break; // terminate the loop
                 }
 
                 // At this point we know that both pointers have content. We can now check the content
@@ -1229,6 +1247,9 @@ void compare(
                     break; // terminate the loop
                 } else if (not*x_it && not*y_it) { // No content to check. Both smart pointers can be considered equal
                     continue; // Go on with next iteration in the loop - there is nothing to check here
+                } else if (typeid(**x_it) != typeid(**y_it)) { // Different types are different by definition
+                    foundInequality = true;
+                    break; // terminate the loop
                 }
 
                 // At this point we know that both pointers have content. We can now check this content
-- 
2.43.0


From e5607600b44b2159c4ff011aacda1d4663cdc6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:40 +0000
Subject: [PATCH 033/107] fix: allow cross-over of individuals with a single
 parameter of a type

---
 src/geneva/GParameterSet.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geneva/GParameterSet.cpp b/src/geneva/GParameterSet.cpp
index cf91161..670d452 100644
--- a/src/geneva/GParameterSet.cpp
+++ b/src/geneva/GParameterSet.cpp
@@ -699,7 +699,7 @@ std::shared_ptr<GParameterSet> GParameterSet::crossOverWith(std::shared_ptr<GPar
 #endif /* DEBUG */
 
 	// Do the actual cross-over
-	if (not this_double_cnt.empty()) {
+	if (this_double_cnt.size() > 1) { // A cut needs at least two parameters
 		// Calculate a suitable position for the cross-over
 		// We use this->cp as the source for getCrossOverPos in order to avoid
 		// having to mark getCrossOverPos const and this m_gr mutable.
@@ -710,7 +710,7 @@ std::shared_ptr<GParameterSet> GParameterSet::crossOverWith(std::shared_ptr<GPar
 		std::copy(cp_double_cnt.begin()+pos, cp_double_cnt.end(), this_double_cnt.begin()+pos);
 	}
 
-	if (not this_float_cnt.empty()) {
+	if (this_float_cnt.size() > 1) { // A cut needs at least two parameters
 		// Calculate a suitable position for the cross-over
 		auto pos = this_cp->getCrossOverPos(1, this_float_cnt.size());
 
@@ -719,7 +719,7 @@ std::shared_ptr<GParameterSet> GParameterSet::crossOverWith(std::shared_ptr<GPar
 		std::copy(cp_float_cnt.begin()+pos, cp_float_cnt.end(), this_float_cnt.begin()+pos);
 	}
 
-	if (not this_bool_cnt.empty()) {
+	if (this_bool_cnt.size() > 1) { // A cut needs at least two parameters
 		// Calculate a suitable position for the cross-over
 		auto pos = this_cp->getCrossOverPos(1, this_bool_cnt.size());
 
@@ -728,7 +728,7 @@ std::shared_ptr<GParameterSet> GParameterSet::crossOverWith(std::shared_ptr<GPar
 		std::copy(cp_bool_cnt.begin()+pos, cp_bool_cnt.end(), this_bool_cnt.begin()+pos);
 	}
 
-	if (not this_int_cnt.empty()) {
+	if (this_int_cnt.size() > 1) { // A cut needs at least two parameters
 		// Calculate a suitable position for the cross-over
 		auto pos = this_cp->getCrossOverPos(1, this_int_cnt.size());
 
-- 
2.43.0


From 7b2377ca81f2a09286958c3a5b495f7f2192d5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:41 +0000
Subject: [PATCH 034/107] fix: do not compare the temporary values of gradient
 descents, which are neither loaded nor serialized

---
 src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp b/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp
index 22e9fcb..d02a748 100644
--- a/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp
@@ -215,10 +215,8 @@ void GGradientDescent::compare_(
 	compare_t(IDENTITY(nFPParmsFirst_, p_load->nFPParmsFirst_), token);
 	compare_t(IDENTITY(finiteStep_, p_load->finiteStep_), token);
 	compare_t(IDENTITY(stepSize_, p_load->stepSize_), token);
-	compare_t(IDENTITY(stepRatio_, p_load->stepRatio_), token);
-	compare_t(IDENTITY(dblLowerParameterBoundaries_, p_load->dblLowerParameterBoundaries_), token);
-	compare_t(IDENTITY(dblUpperParameterBoundaries_, p_load->dblUpperParameterBoundaries_), token);
-	compare_t(IDENTITY(adjustedFiniteStep_, p_load->adjustedFiniteStep_), token);
+	// stepRatio_, the parameter boundaries and adjustedFiniteStep_ are temporary values calculated
+	// in init(). They are neither loaded nor serialized and thus do not take part in comparisons.
 
 	// React on deviations from the expectation
 	token.evaluate();
-- 
2.43.0


From cb1397e0357d02d6d4a4a29bbf2491a4b2502c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:41 +0000
Subject: [PATCH 035/107] fix: serialize the halt flag of a parameter scan,
 which is part of comparisons

---
 include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
index 7a85ba7..1f774fe 100644
--- a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
+++ b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
@@ -665,6 +665,7 @@ class GParameterScan
         & make_nvp(
             "G_OptimizationAlgorithm_Base"
             , boost::serialization::base_object<G_OptimizationAlgorithm_Base>(*this))
+        & BOOST_SERIALIZATION_NVP(m_cycleLogicHalt)
         & BOOST_SERIALIZATION_NVP(m_scanRandomly)
         & BOOST_SERIALIZATION_NVP(m_nMonitorInds)
         & BOOST_SERIALIZATION_NVP(m_b_cnt)
-- 
2.43.0


From ed8e003417466fe9a07b3f2758ea19141d5706ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:13 +0000
Subject: [PATCH 036/107] fix: adapt the data of neighborhoods when the sizes
 of a swarm are changed

---
 src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
index d0e1164..77dc634 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
@@ -331,6 +331,10 @@ void GSwarmAlgorithm::setSwarmSizes(
 	m_n_neighborhoods = (nNeighborhoods >= 1) ? nNeighborhoods : 1;
 	m_default_n_neighborhood_members = (defaultNNeighborhoodMembers >= 2) ? defaultNNeighborhoodMembers : 2;
 
+	// Make sure there is one entry for each neighborhood
+	m_n_neighborhood_members_cnt = std::vector<std::size_t>(m_n_neighborhoods, 0);
+	m_neighborhood_bests_cnt.resize(m_n_neighborhoods);
+
 	// Update our parent class'es values
 	G_OptimizationAlgorithm_Base::setDefaultPopulationSize(m_n_neighborhoods * m_default_n_neighborhood_members);
 }
-- 
2.43.0


From 7ada17927edbea64e495e1f0e958ed279190f367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:23 +0000
Subject: [PATCH 037/107] fix: copy the neighborhood bests and the global best
 of a swarm as they are

---
 ...G_OptimizationAlgorithm_SwarmAlgorithm.cpp | 69 +++----------------
 1 file changed, 10 insertions(+), 59 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
index 77dc634..6c0f73a 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
@@ -78,7 +78,7 @@ GSwarmAlgorithm::GSwarmAlgorithm(const GSwarmAlgorithm &cp)
 	  , m_n_neighborhoods(cp.m_n_neighborhoods)
 	  , m_default_n_neighborhood_members(cp.m_default_n_neighborhood_members)
 	  , m_n_neighborhood_members_cnt(cp.m_n_neighborhood_members_cnt)
-	  , m_global_best_ptr((cp.afterFirstIteration()) ? (cp.m_global_best_ptr)->clone<GParameterSet>() : std::shared_ptr<GParameterSet>())
+	  , m_global_best_ptr(cp.m_global_best_ptr ? (cp.m_global_best_ptr)->clone<GParameterSet>() : std::shared_ptr<GParameterSet>())
 	  , m_neighborhood_bests_cnt(m_n_neighborhoods) // We copy the smart pointers over later
 	  , m_c_personal(cp.m_c_personal)
 	  , m_c_neighborhood(cp.m_c_neighborhood)
@@ -100,8 +100,8 @@ GSwarmAlgorithm::GSwarmAlgorithm(const GSwarmAlgorithm &cp)
 	G_OptimizationAlgorithm_Base::setDefaultPopulationSize(m_n_neighborhoods * m_default_n_neighborhood_members);
 
 	// Clone cp's best individuals in each neighborhood
-	if (cp.afterFirstIteration()) {
-		for (std::size_t i = 0; i < m_n_neighborhoods; i++) {
+	for (std::size_t i = 0; i < m_n_neighborhoods; i++) {
+		if (cp.m_neighborhood_bests_cnt[i]) {
 			m_neighborhood_bests_cnt[i] = cp.m_neighborhood_bests_cnt[i]->clone<GParameterSet>();
 		}
 	}
@@ -150,62 +150,13 @@ void GSwarmAlgorithm::load_(const GObject *cp) {
 
 	m_velocity_range_percentage = p_load->m_velocity_range_percentage;
 
-	// We start from scratch if the number of neighborhoods or the alleged number of members in them differ
-	if (m_n_neighborhoods != p_load->m_n_neighborhoods ||
-		 not nNeighborhoodMembersEqual(m_n_neighborhood_members_cnt, p_load->m_n_neighborhood_members_cnt)) {
-		m_n_neighborhoods = p_load->m_n_neighborhoods;
-
-		m_n_neighborhood_members_cnt.clear();
-		m_neighborhood_bests_cnt.clear();
-
-		m_n_neighborhood_members_cnt.resize(m_n_neighborhoods);
-		m_neighborhood_bests_cnt.resize(m_n_neighborhoods);
-
-		// Copy the neighborhood bests and number of neighborhood members over
-		for (std::size_t i = 0; i < m_n_neighborhoods; i++) {
-			m_n_neighborhood_members_cnt[i] = p_load->m_n_neighborhood_members_cnt[i];
-			// The following only makes sense if this is not the first iteration. Note that
-			// getIteration will return the "foreign" GSwarmAlgorithm object's iteration, as it has
-			// already been copied.
-			if (afterFirstIteration()) {
-				m_neighborhood_bests_cnt[i] = p_load->m_neighborhood_bests_cnt[i]->clone<GParameterSet>();
-			}
-			// we do not need to reset the m_neighborhood_bests_cnt, as that array has just been created
-		}
-	}
-	else { // We now assume that we can just load neighborhood bests in each position.
-		// Copying only makes sense if the foreign GSwarmAlgorithm object's iteration is larger
-		// than the iteration offset. Note that getIteration() will return the foreign iteration,
-		// as that value has already been copied.
-		if (afterFirstIteration()) {
-			for (std::size_t i = 0; i < m_n_neighborhoods; i++) {
-				// We might be in a situation where the std::shared_ptr which usually
-				// holds the neighborhood bests has not yet been initialized
-				if (m_neighborhood_bests_cnt[i]) {
-					m_neighborhood_bests_cnt[i]->GObject::load(p_load->m_neighborhood_bests_cnt[i]);
-				} else {
-					m_neighborhood_bests_cnt[i] = p_load->m_neighborhood_bests_cnt[i]->clone<GParameterSet>();
-				}
-			}
-		} else {
-			for (std::size_t i = 0; i < m_n_neighborhoods; i++) {
-				m_neighborhood_bests_cnt[i].reset();
-			}
-		}
-	}
-
-	// Copy the global best over
-	if (p_load->afterFirstIteration()) { // cp has a global best, we don't
-		if (m_global_best_ptr) { // If we already have a global best, just load the other objects global best
-			m_global_best_ptr->GObject::load(p_load->m_global_best_ptr);
-		} else {
-			m_global_best_ptr = p_load->GObject::clone<GParameterSet>();
-		}
-	}
-	else if (p_load->inFirstIteration()) { // cp does not have a global best
-		m_global_best_ptr.reset(); // empty the smart pointer
-	}
-	// else {} // We do not need to do anything if both iterations are 0 as there is no global best at all
+	// The neighborhood bests and the global best need to be deep-copied. They
+	// may be empty, e.g. if no optimization run has been performed so far.
+	m_n_neighborhoods = p_load->m_n_neighborhoods;
+	m_n_neighborhood_members_cnt = p_load->m_n_neighborhood_members_cnt;
+	m_neighborhood_bests_cnt.resize(p_load->m_neighborhood_bests_cnt.size());
+	Gem::Common::copyCloneableSmartPointerContainer(p_load->m_neighborhood_bests_cnt, m_neighborhood_bests_cnt);
+	Gem::Common::copyCloneableSmartPointer(p_load->m_global_best_ptr, m_global_best_ptr);
 }
 
 /******************************************************************************/
-- 
2.43.0


From 7e731e795f358e3ed1b8ae369c45870d197b648f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:59 +0000
Subject: [PATCH 038/107] fix: multiply the value a constrained parameter
 delivers instead of its internal representation

---
 src/geneva/GConstrainedDoubleObject.cpp | 6 +++---
 src/geneva/GConstrainedInt32Object.cpp  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/geneva/GConstrainedDoubleObject.cpp b/src/geneva/GConstrainedDoubleObject.cpp
index 4877192..bb8d676 100644
--- a/src/geneva/GConstrainedDoubleObject.cpp
+++ b/src/geneva/GConstrainedDoubleObject.cpp
@@ -246,7 +246,7 @@ void GConstrainedDoubleObject::doubleMultiplyByRandom(
 	, Gem::Hap::GRandomBase& gr
 ) {
 	std::uniform_real_distribution<double> uniform_real_distribution(min, max);
-	GParameterT<double>::setValue(transfer(GParameterT<double>::value() * uniform_real_distribution(gr)));
+	GParameterT<double>::setValue(transfer(this->value() * uniform_real_distribution(gr)));
 }
 
 /******************************************************************************/
@@ -258,7 +258,7 @@ void GConstrainedDoubleObject::doubleMultiplyByRandom(
 	, Gem::Hap::GRandomBase& gr
 ) {
 	std::uniform_real_distribution<double> uniform_real_distribution(0., 1.);
-	GParameterT<double>::setValue(transfer(GParameterT<double>::value() * uniform_real_distribution(gr)));
+	GParameterT<double>::setValue(transfer(this->value() * uniform_real_distribution(gr)));
 }
 
 /******************************************************************************/
@@ -269,7 +269,7 @@ void GConstrainedDoubleObject::doubleMultiplyBy(
 	const double &val
 	, const activityMode &am
 ) {
-	GParameterT<double>::setValue(transfer(val * GParameterT<double>::value()));
+	GParameterT<double>::setValue(transfer(val * this->value()));
 }
 
 /******************************************************************************/
diff --git a/src/geneva/GConstrainedInt32Object.cpp b/src/geneva/GConstrainedInt32Object.cpp
index 39249ce..996c2a3 100644
--- a/src/geneva/GConstrainedInt32Object.cpp
+++ b/src/geneva/GConstrainedInt32Object.cpp
@@ -244,7 +244,7 @@ void GConstrainedInt32Object::int32MultiplyByRandom(
 ) {
 	std::uniform_int_distribution<std::int32_t> uniform_int_distribution(min, max);
 	GParameterT<std::int32_t>::setValue(
-		transfer(GParameterT<std::int32_t>::value() * uniform_int_distribution(gr))
+		transfer(this->value() * uniform_int_distribution(gr))
 	);
 }
 
@@ -260,7 +260,7 @@ void GConstrainedInt32Object::int32MultiplyByRandom(
 	GParameterT<std::int32_t>::setValue(
 		transfer(
 			boost::numeric_cast<std::int32_t>(
-				boost::numeric_cast<double>(GParameterT<std::int32_t>::value())
+				boost::numeric_cast<double>(this->value())
 				* uniform_real_distribution(gr)
 			)
 		)
@@ -275,7 +275,7 @@ void GConstrainedInt32Object::int32MultiplyBy(
 	const std::int32_t &val
 	, const activityMode &am
 ) {
-	GParameterT<std::int32_t>::setValue(transfer(val * GParameterT<std::int32_t>::value()));
+	GParameterT<std::int32_t>::setValue(transfer(val * this->value()));
 }
 
 /******************************************************************************/
-- 
2.43.0


From 504f6e9a23760c8632087c65288e6a460c7eb5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:15 +0000
Subject: [PATCH 039/107] fix: refuse NaN as a value or boundary of constrained
 parameters

---
 include/geneva/GConstrainedNumCollectionT.hpp |  8 +++----
 include/geneva/GConstrainedNumT.hpp           | 24 +++++++++----------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/geneva/GConstrainedNumCollectionT.hpp b/include/geneva/GConstrainedNumCollectionT.hpp
index d253067..9ce1394 100644
--- a/include/geneva/GConstrainedNumCollectionT.hpp
+++ b/include/geneva/GConstrainedNumCollectionT.hpp
@@ -185,7 +185,7 @@ public:
         }
 
         // Check that assigned value is in the allowed range
-        if (val < lowerBoundary || val > upperBoundary) {
+        if (not (val >= lowerBoundary && val <= upperBoundary)) {
             glogger
                 << "In GConstrainedNumCollectionT<num_type>::GConstrainedNumCollectionT(size, val, lower,upper):"
                 << std::endl
@@ -258,7 +258,7 @@ public:
             currentValues.push_back(this->value(pos));
 
             // Check that the value is inside the allowed range
-            if (currentValues[pos] < lower || currentValues[pos] > upper) {
+            if (not (currentValues[pos] >= lower && currentValues[pos] <= upper)) {
                 throw gemfony_exception(
                     g_error_streamer(
                         DO_LOG
@@ -274,7 +274,7 @@ public:
         }
 
         // Check that the boundaries make sense
-        if (lower > upper) {
+        if (not (lower <= upper)) {
             throw gemfony_exception(
                 g_error_streamer(
                     DO_LOG
@@ -310,7 +310,7 @@ public:
      */
     void setValue(const std::size_t &pos, const num_type &val) override {
         // Do some error checking
-        if (val < m_lowerBoundary || val > m_upperBoundary) {
+        if (not (val >= m_lowerBoundary && val <= m_upperBoundary)) {
             throw gemfony_exception(
                 g_error_streamer(
                     DO_LOG
diff --git a/include/geneva/GConstrainedNumT.hpp b/include/geneva/GConstrainedNumT.hpp
index 1dfbe0b..8cb0c2b 100644
--- a/include/geneva/GConstrainedNumT.hpp
+++ b/include/geneva/GConstrainedNumT.hpp
@@ -123,7 +123,7 @@ public:
 			, upperBoundary_(upperBoundary)
 	 {
 		 // Naturally the upper boundary should be > the lower boundary.
-		 if(lowerBoundary_ >= upperBoundary_) {
+		 if(not (lowerBoundary_ < upperBoundary_)) {
 			 throw gemfony_exception(
 				 g_error_streamer(DO_LOG, time_and_place)
 					 << "In GConstrainedNumT<T>::GConstrainedNumT(lower,upper):" << std::endl
@@ -132,7 +132,7 @@ public:
 		 }
 
 		 // We might have constraints regarding the allowed boundaries. Cross-check
-		 if(lowerBoundary < GConstrainedValueLimitT<T>::lowest() || upperBoundary > GConstrainedValueLimitT<T>::highest()) {
+		 if(not (lowerBoundary >= GConstrainedValueLimitT<T>::lowest() && upperBoundary <= GConstrainedValueLimitT<T>::highest())) {
 			 throw gemfony_exception(
 				 g_error_streamer(DO_LOG, time_and_place)
 					 << "In GConstrainedNumT<T>::GConstrainedNumT(lower,upper):" << std::endl
@@ -159,7 +159,7 @@ public:
 			, upperBoundary_(upperBoundary)
 	 {
 		 // Do some error checking
-		 if(lowerBoundary_ >= upperBoundary_) {
+		 if(not (lowerBoundary_ < upperBoundary_)) {
 			 throw gemfony_exception(
 				 g_error_streamer(DO_LOG, time_and_place)
 					 << "In GConstrainedNumT<T>::GConstrainedNumT(val,lower,upper):" << std::endl
@@ -169,7 +169,7 @@ public:
 		 }
 
 		 // We might have constraints regarding the allowed boundaries. Cross-check
-		 if(lowerBoundary < GConstrainedValueLimitT<T>::lowest() || upperBoundary > GConstrainedValueLimitT<T>::highest()) {
+		 if(not (lowerBoundary >= GConstrainedValueLimitT<T>::lowest() && upperBoundary <= GConstrainedValueLimitT<T>::highest())) {
 			 throw gemfony_exception(
 				 g_error_streamer(DO_LOG, time_and_place)
 					 << "In GConstrainedNumT<T>::GConstrainedNumT(val, lower,upper):" << std::endl
@@ -182,7 +182,7 @@ public:
 		 }
 
 		 // Check that the value is inside of the allowed value range
-		 if(val < lowerBoundary_ || val > upperBoundary_) {
+		 if(not (val >= lowerBoundary_ && val <= upperBoundary_)) {
 			 throw gemfony_exception(
 				 g_error_streamer(DO_LOG, time_and_place)
 					 << "In GConstrainedNumT<T>::GConstrainedNumT(val,lower,upper):" << std::endl
@@ -265,7 +265,7 @@ public:
 		 const T currentValue = this->value(); // Store the externally visible value
 
 		 // Check that the boundaries make sense
-		 if(lowerBoundary > upperBoundary) {
+		 if(not (lowerBoundary <= upperBoundary)) {
 			 throw gemfony_exception(
 				 g_error_streamer(DO_LOG, time_and_place)
 					 << "In GConstrainedNumT<T>::setBoundaries(const T&, const T&)" << std::endl
@@ -275,7 +275,7 @@ public:
 		 }
 
 		 // We might have constraints regarding the allowed boundaries. Cross-check
-		 if(lowerBoundary < GConstrainedValueLimitT<T>::lowest() || upperBoundary > GConstrainedValueLimitT<T>::highest()) {
+		 if(not (lowerBoundary >= GConstrainedValueLimitT<T>::lowest() && upperBoundary <= GConstrainedValueLimitT<T>::highest())) {
 			 throw gemfony_exception(
 				 g_error_streamer(DO_LOG, time_and_place)
 					 << "In GConstrainedNumT<T>::setBoundaries(const T&, const T&):" << std::endl
@@ -288,7 +288,7 @@ public:
 		 }
 
 		 // Check that the value is inside the allowed range
-		 if(currentValue < lowerBoundary || currentValue > upperBoundary){
+		 if(not (currentValue >= lowerBoundary && currentValue <= upperBoundary)){
 			 throw gemfony_exception(
 				 g_error_streamer(DO_LOG, time_and_place)
 					 << "In GConstrainedNumT<T>::setBoundaries(const T&, const T&) :" << std::endl
@@ -315,7 +315,7 @@ public:
 	  */
 	 void setValue(const T& val) override {
 		 // Do some error checking
-		 if(val < lowerBoundary_ || val > upperBoundary_) {
+		 if(not (val >= lowerBoundary_ && val <= upperBoundary_)) {
 			 throw gemfony_exception(
 				 g_error_streamer(DO_LOG, time_and_place)
 					 << "In GConstrainedNumT<T>::setValue(val):" << std::endl
@@ -346,7 +346,7 @@ public:
 		 // Do some error checking
 
 		 // Do the boundaries make sense ?
-		 if(lowerBoundary > upperBoundary) {
+		 if(not (lowerBoundary <= upperBoundary)) {
 			 throw gemfony_exception(
 				 g_error_streamer(DO_LOG, time_and_place)
 					 << "In GConstrainedNumT<T>::setValue(val,lower,upper):" << std::endl
@@ -356,7 +356,7 @@ public:
 		 }
 
 		 // We might have constraints regarding the allowed boundaries. Cross-check
-		 if(lowerBoundary < GConstrainedValueLimitT<T>::lowest() || upperBoundary > GConstrainedValueLimitT<T>::highest()) {
+		 if(not (lowerBoundary >= GConstrainedValueLimitT<T>::lowest() && upperBoundary <= GConstrainedValueLimitT<T>::highest())) {
 			 throw gemfony_exception(
 				 g_error_streamer(DO_LOG, time_and_place)
 					 << "In GConstrainedNumT<T>::setValue(val,lower,upper):" << std::endl
@@ -369,7 +369,7 @@ public:
 		 }
 
 		 // Check that the value is inside of the allowed value range
-		 if(val < lowerBoundary || val > upperBoundary) {
+		 if(not (val >= lowerBoundary && val <= upperBoundary)) {
 			 throw gemfony_exception(
 				 g_error_streamer(DO_LOG, time_and_place)
 					 << "In GConstrainedNumT<T>::setValue(val,lower,upper):" << std::endl
-- 
2.43.0


From 3693ac22a4a483889b06f4096e53be2d6bb43857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:15 +0000
Subject: [PATCH 040/107] fix: let constrained collections refuse boundaries
 beyond the allowed limits

---
 include/geneva/GConstrainedNumCollectionT.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/geneva/GConstrainedNumCollectionT.hpp b/include/geneva/GConstrainedNumCollectionT.hpp
index 9ce1394..10f55fe 100644
--- a/include/geneva/GConstrainedNumCollectionT.hpp
+++ b/include/geneva/GConstrainedNumCollectionT.hpp
@@ -286,6 +286,20 @@ public:
             );
         }
 
+        // Check that the boundaries have allowed values
+        if (not (lower >= GConstrainedValueLimitT<num_type>::lowest() &&
+                 upper <= GConstrainedValueLimitT<num_type>::highest())) {
+            throw gemfony_exception(
+                g_error_streamer(
+                    DO_LOG
+                    , time_and_place
+                )
+                    << "In GConstrainedNumCollectionT<num_type>::setBoundaries(const num_type&, const num_type&)" << std::endl
+                    << "with typeid(num_type).name() = " << typeid(num_type).name() << " :" << std::endl
+                    << "Lower and/or upper boundary has invalid value : " << lower << " " << upper << std::endl
+            );
+        }
+
         m_lowerBoundary = lower;
         m_upperBoundary = upper;
 
-- 
2.43.0


From 189dcbc45fb4dd76e3b13596e5b02eb29d834c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:58 +0000
Subject: [PATCH 041/107] fix: let constrained floating point parameters with a
 single allowed value deliver it

---
 include/geneva/GConstrainedFPNumCollectionT.hpp | 4 +++-
 include/geneva/GConstrainedFPT.hpp              | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/geneva/GConstrainedFPNumCollectionT.hpp b/include/geneva/GConstrainedFPNumCollectionT.hpp
index a1faecc..a84324f 100644
--- a/include/geneva/GConstrainedFPNumCollectionT.hpp
+++ b/include/geneva/GConstrainedFPNumCollectionT.hpp
@@ -178,8 +178,10 @@ public:
         fp_type lowerBoundary = GConstrainedNumCollectionT<fp_type>::getLowerBoundary();
         fp_type upperBoundary = GConstrainedNumCollectionT<fp_type>::getUpperBoundary();
 
-        if (val >= lowerBoundary && val < upperBoundary) {
+        if (val >= lowerBoundary && val <= upperBoundary) {
             return val;
+        } else if (lowerBoundary == upperBoundary) { // There is only one allowed value
+            return lowerBoundary;
         } else {
             // Find out which region the value is in (compare figure transferFunction.pdf
             // that should have been delivered with this software). Note that boost::numeric_cast<>
diff --git a/include/geneva/GConstrainedFPT.hpp b/include/geneva/GConstrainedFPT.hpp
index 95a8c11..6bb4e59 100644
--- a/include/geneva/GConstrainedFPT.hpp
+++ b/include/geneva/GConstrainedFPT.hpp
@@ -312,8 +312,10 @@ public:
 		 long double lowerBoundary = boost::numeric_cast<long double>(GConstrainedNumT<fp_type>::getLowerBoundary());
 		 long double upperBoundary = boost::numeric_cast<long double>(GConstrainedNumT<fp_type>::getUpperBoundary());
 
-		 if(localVal >= lowerBoundary && localVal < upperBoundary) {
+		 if(localVal >= lowerBoundary && localVal <= upperBoundary) {
 			 return val; // no cast needed
+		 } else if(lowerBoundary == upperBoundary) { // There is only one allowed value
+			 return GConstrainedNumT<fp_type>::getLowerBoundary();
 		 } else {
 			 // Find out which region the value is in (compare figure transferFunction.pdf
 			 // that should have been delivered with this software). Note that boost::numeric_cast<>
-- 
2.43.0


From c003461a5747cf749f35ec1bbffb3692449013e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:59 +0000
Subject: [PATCH 042/107] fix: let the constructor of Gauss adaptors use the
 sigma settings it is given

---
 include/geneva/GNumGaussAdaptorT.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/geneva/GNumGaussAdaptorT.hpp b/include/geneva/GNumGaussAdaptorT.hpp
index ef35362..b13a0a0 100644
--- a/include/geneva/GNumGaussAdaptorT.hpp
+++ b/include/geneva/GNumGaussAdaptorT.hpp
@@ -141,7 +141,14 @@ public:
 		 , const double& probability
 	 )
 		 : GAdaptorT<num_type> (probability)
-	 { /* nothing */ }
+	 {
+		 // These functions do error checks on their values
+		 setSigmaAdaptionRate(sigmaSigma);
+		 setSigmaRange(minSigma, maxSigma);
+		 setSigma(sigma); // Must be set last so an error check for compliance with the boundaries can be made
+
+		 sigma_reset_ = sigma_;
+	 }
 
 	 /***************************************************************************/
 	 /**
-- 
2.43.0


From 306a1908a1666d8262b09ba2aef83c305d954541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:21 +0000
Subject: [PATCH 043/107] fix: let Gauss adaptors report a reset of the
 adaption probability upon stalls

---
 include/geneva/GNumGaussAdaptorT.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/geneva/GNumGaussAdaptorT.hpp b/include/geneva/GNumGaussAdaptorT.hpp
index b13a0a0..19d0abf 100644
--- a/include/geneva/GNumGaussAdaptorT.hpp
+++ b/include/geneva/GNumGaussAdaptorT.hpp
@@ -404,11 +404,11 @@ public:
 		 , const num_type& range
 	 ) override {
 		 // Call our parent class'es function
-		 GAdaptorT<num_type>::updateOnStall(nStalls, range);
+		 bool updated = GAdaptorT<num_type>::updateOnStall(nStalls, range);
 
-		 // Reset the adaption probability
+		 // Reset sigma
 		 if(sigma_ == sigma_reset_) {
-			 return false;
+			 return updated;
 		 } else {
 			 sigma_ = sigma_reset_;
 			 return true;
-- 
2.43.0


From 23faccea016720370dd5c4052ad0460681be3b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:21 +0000
Subject: [PATCH 044/107] fix: refuse upper boundaries of adaptor settings
 below the smallest allowed value without changing the adaptor

---
 include/geneva/GAdaptorT.hpp         | 9 +++++++++
 include/geneva/GNumGaussAdaptorT.hpp | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/geneva/GAdaptorT.hpp b/include/geneva/GAdaptorT.hpp
index a57d192..b203b3b 100644
--- a/include/geneva/GAdaptorT.hpp
+++ b/include/geneva/GAdaptorT.hpp
@@ -483,6 +483,15 @@ public:
 		 }
 #endif /* DEBUG */
 
+		 // The lower boundary is raised to DEFMINADPROB below
+		 if (maxAdProb < DEFMINADPROB) {
+			 throw gemfony_exception(
+				 g_error_streamer(DO_LOG, time_and_place)
+					 << "In GAdaptorT<T, fp_type>::setAdProbRange(): Error!" << std::endl
+					 << "maxAdProb < " << DEFMINADPROB << ": " << maxAdProb << std::endl
+			 );
+		 }
+
 		 // Store the new values
 		 m_minAdProb = minAdProb;
 		 if (m_minAdProb < DEFMINADPROB) {
diff --git a/include/geneva/GNumGaussAdaptorT.hpp b/include/geneva/GNumGaussAdaptorT.hpp
index 19d0abf..f9206fb 100644
--- a/include/geneva/GNumGaussAdaptorT.hpp
+++ b/include/geneva/GNumGaussAdaptorT.hpp
@@ -257,7 +257,7 @@ public:
 	 ){
 		 using namespace Gem::Common;
 
-		 if(minSigma < fp_type(0.) || minSigma > maxSigma || maxSigma > fp_type(1.)) {
+		 if(minSigma < fp_type(0.) || minSigma > maxSigma || maxSigma > fp_type(1.) || maxSigma < fp_type(DEFAULTMINSIGMA)) {
 			 throw gemfony_exception(
 				 g_error_streamer(DO_LOG, time_and_place)
 					 << "In GNumGaussAdaptorT::setSigmaRange(const fp_type&, const fp_type&):" << std::endl
-- 
2.43.0


From 2c7f316611d178fd0d1a38ef259161e40b4c8b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:21 +0000
Subject: [PATCH 045/107] fix: do not regard NaN as compliant with a range

---
 include/common/GCommonMathHelperFunctionsT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common/GCommonMathHelperFunctionsT.hpp b/include/common/GCommonMathHelperFunctionsT.hpp
index 65f98ab..5424221 100644
--- a/include/common/GCommonMathHelperFunctionsT.hpp
+++ b/include/common/GCommonMathHelperFunctionsT.hpp
@@ -141,7 +141,7 @@ bool checkRangeCompliance(
 		);
    }
 
-	return not (val < lower || val > upper);
+	return val >= lower && val <= upper;
 }
 
 /******************************************************************************/
-- 
2.43.0


From 7d3745004c4c4b809643c26c1b1811b742228d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:13 +0000
Subject: [PATCH 046/107] fix: let GParameterSet::getVarVal work for boolean
 parameters

---
 include/geneva/GParameterSet.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/geneva/GParameterSet.hpp b/include/geneva/GParameterSet.hpp
index ee16ed3..a3d4ef9 100644
--- a/include/geneva/GParameterSet.hpp
+++ b/include/geneva/GParameterSet.hpp
@@ -532,7 +532,7 @@ public:
             case 0: {
                 std::vector<par_type> vars;
                 this->streamline<par_type>(vars);
-                result = vars.at(std::get<2>(target));
+                result = static_cast<par_type>(vars.at(std::get<2>(target)));
             }
                 break;
 
@@ -542,10 +542,10 @@ public:
             {
                 std::map<std::string, std::vector<par_type>> varMap;
                 this->streamline<par_type>(varMap);
-                result = (
+                result = static_cast<par_type>((
                     Gem::Common::getMapItem<std::vector<par_type>>(
                         varMap
-                        , std::get<1>(target))).at(std::get<2>(target));
+                        , std::get<1>(target))).at(std::get<2>(target)));
             }
                 break;
 
-- 
2.43.0


From 2732bed9dfdbfd49abd9c8c74a98b9e36682a387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:43 +0000
Subject: [PATCH 047/107] fix: initialise boolean parameters with a constant
 value instead of ignoring the request

---
 include/geneva/GBooleanCollection.hpp |  2 ++
 include/geneva/GBooleanObject.hpp     |  2 ++
 src/geneva/GBooleanCollection.cpp     | 14 ++++++++++++++
 src/geneva/GBooleanObject.cpp         | 11 +++++++++++
 4 files changed, 29 insertions(+)

diff --git a/include/geneva/GBooleanCollection.hpp b/include/geneva/GBooleanCollection.hpp
index db442c9..f6d87f7 100644
--- a/include/geneva/GBooleanCollection.hpp
+++ b/include/geneva/GBooleanCollection.hpp
@@ -149,6 +149,8 @@ protected:
 	 G_API_GENEVA void assignBooleanValueVector(const std::vector<bool>&, std::size_t&, const activityMode& am) override;
 	 /** @brief Assigns part of a value map to the parameter */
 	 G_API_GENEVA void assignBooleanValueVectors(const std::map<std::string, std::vector<bool>>&, const activityMode& am) override;
+	 /** @brief Initialization with a constant value */
+	 G_API_GENEVA void booleanFixedValueInit(const bool &value, const activityMode& am) override;
 
 	 /** @brief Applies modifications to this object. This is needed for testing purposes */
 	 G_API_GENEVA bool modify_GUnitTests_() override;
diff --git a/include/geneva/GBooleanObject.hpp b/include/geneva/GBooleanObject.hpp
index 90af06b..ca73e8e 100644
--- a/include/geneva/GBooleanObject.hpp
+++ b/include/geneva/GBooleanObject.hpp
@@ -158,6 +158,8 @@ protected:
     G_API_GENEVA void assignBooleanValueVectors(
         const std::map<std::string, std::vector<bool>> &, const activityMode &am
     ) override;
+    /** @brief Initialization with a constant value */
+    G_API_GENEVA void booleanFixedValueInit(const bool &value, const activityMode& am) override;
 
     /** @brief Applies modifications to this object. This is needed for testing purposes */
     G_API_GENEVA bool modify_GUnitTests_() override;
diff --git a/src/geneva/GBooleanCollection.cpp b/src/geneva/GBooleanCollection.cpp
index ca77bd9..c7e879c 100644
--- a/src/geneva/GBooleanCollection.cpp
+++ b/src/geneva/GBooleanCollection.cpp
@@ -386,6 +386,20 @@ void GBooleanCollection::assignBooleanValueVectors(
 	}
 }
 
+/******************************************************************************/
+/**
+ * Initialization with a constant value
+ */
+void GBooleanCollection::booleanFixedValueInit(
+	const bool &value
+	, const activityMode &am
+) {
+	GBooleanCollection::iterator it;
+	for (it = this->begin(); it != this->end(); ++it) {
+		*it = value;
+	}
+}
+
 /******************************************************************************/
 /**
  * Applies modifications to this object. This is needed for testing purposes
diff --git a/src/geneva/GBooleanObject.cpp b/src/geneva/GBooleanObject.cpp
index 6c32535..16045a1 100644
--- a/src/geneva/GBooleanObject.cpp
+++ b/src/geneva/GBooleanObject.cpp
@@ -329,6 +329,17 @@ void GBooleanObject::assignBooleanValueVectors(
 	this->setValue((Gem::Common::getMapItem<std::vector<bool>>(parMap, this->getParameterName())).at(0));
 }
 
+/******************************************************************************/
+/**
+ * Initialization with a constant value
+ */
+void GBooleanObject::booleanFixedValueInit(
+	const bool &value
+	, const activityMode &am
+) {
+	this->setValue(value);
+}
+
 /******************************************************************************/
 /**
  * Loads the data of another GObject
-- 
2.43.0


From ba67176846adabde3f28f84ebcfc51e1dad9b856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:26 +0000
Subject: [PATCH 048/107] fix: put the values of numeric collections under
 their own entry of the property tree

---
 include/geneva/GNumCollectionT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geneva/GNumCollectionT.hpp b/include/geneva/GNumCollectionT.hpp
index ae9ce15..114b2a6 100644
--- a/include/geneva/GNumCollectionT.hpp
+++ b/include/geneva/GNumCollectionT.hpp
@@ -277,7 +277,7 @@ public:
         for (cit = this->begin(); cit != this->end(); ++cit) {
             pos = cit - this->begin();
             ptr.put(
-                baseName + "values.value" + Gem::Common::to_string(pos)
+                baseName + ".values.value" + Gem::Common::to_string(pos)
                 , *cit
             );
         }
-- 
2.43.0


From 93e42b5a382fdb333a6fafbce18ead939e880ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:26 +0000
Subject: [PATCH 049/107] fix: write the actual values of constrained
 collections to the property tree, not their internal representation

---
 include/geneva/GConstrainedNumCollectionT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geneva/GConstrainedNumCollectionT.hpp b/include/geneva/GConstrainedNumCollectionT.hpp
index 10f55fe..cbde705 100644
--- a/include/geneva/GConstrainedNumCollectionT.hpp
+++ b/include/geneva/GConstrainedNumCollectionT.hpp
@@ -418,7 +418,7 @@ public:
             pos = cit - this->begin();
             ptr.put(
                 baseName + ".values.value" + Gem::Common::to_string(pos)
-                , *cit
+                , this->transfer(*cit)
             );
         }
         ptr.put(
-- 
2.43.0


From 95da72d4e003ddac0ffcbb6e5159a1f779ccbef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:41 +0000
Subject: [PATCH 050/107] fix: let adapt() mark an individual for re-evaluation
 if any of several adaption attempts has changed it

---
 src/geneva/GParameterSet.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geneva/GParameterSet.cpp b/src/geneva/GParameterSet.cpp
index 670d452..09bf0cf 100644
--- a/src/geneva/GParameterSet.cpp
+++ b/src/geneva/GParameterSet.cpp
@@ -835,7 +835,9 @@ std::size_t GParameterSet::adapt() {
 		// otherwise that individuals remain unchanged after a call to adapt()
 		while (true) { // Try again if no adaption has taken place
 			// Perform the actual adaption; Terminate, if at least one adaption was performed
-			if ((nAdaptions = this->customAdaptions()) > 0) {
+			std::size_t nCurrentAdaptions = this->customAdaptions();
+			nAdaptions += nCurrentAdaptions; // Earlier attempts may also have modified the object
+			if (nCurrentAdaptions > 0) {
 				break;
 			}
 
-- 
2.43.0


From 78c6784d1fe6323f6276089c044c8577db14d7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:41 +0000
Subject: [PATCH 051/107] fix: let setFitness_ also mark individuals with
 violated constraints as processed

---
 src/geneva/GParameterSet.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/geneva/GParameterSet.cpp b/src/geneva/GParameterSet.cpp
index 09bf0cf..47468a5 100644
--- a/src/geneva/GParameterSet.cpp
+++ b/src/geneva/GParameterSet.cpp
@@ -1752,6 +1752,13 @@ void GParameterSet::setFitness_(std::vector<double> const & f_cnt) {
 
 			this->setAllFitnessTo(this->getWorstCase(), uniformFitnessValue);
 		}
+
+		// Make sure the individual is regarded as processed with these results
+		std::vector<parameterset_processing_result> processing_results;
+		for (std::size_t i = 0; i < this->getNStoredResults(); i++) {
+			processing_results.push_back(this->modifyStoredResult(i));
+		}
+		this->markAsProcessedWith(processing_results);
 	}
 }
 
-- 
2.43.0


From 7eb5b2dcd2074e202357a789c15fa262535d0ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 052/107] fix: let text and XML archives deliver infinite and
 undefined values again

---
 include/common/GCommonInterfaceT.hpp              | 5 +++++
 include/common/GSerializationHelperFunctionsT.hpp | 5 +++++
 include/courtier/GCommandContainerT.hpp           | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/include/common/GCommonInterfaceT.hpp b/include/common/GCommonInterfaceT.hpp
index 53b012f..d3b5002 100644
--- a/include/common/GCommonInterfaceT.hpp
+++ b/include/common/GCommonInterfaceT.hpp
@@ -47,6 +47,7 @@
 #include <type_traits>
 
 // Boost header files go here
+#include <boost/math/special_functions/nonfinite_num_facets.hpp>
 #include <boost/archive/xml_oarchive.hpp>
 #include <boost/archive/xml_iarchive.hpp>
 #include <boost/archive/text_oarchive.hpp>
@@ -123,6 +124,7 @@ public:
         switch (serMod) {
             case Gem::Common::serializationMode::TEXT: {
                 boost::archive::text_oarchive oa(oarchive_stream);
+                oarchive_stream.imbue(std::locale(oarchive_stream.getloc(), new boost::math::nonfinite_num_put<char>)); // infinite values and NaN need to be readable again
                 oa << boost::serialization::make_nvp(
                     "classhierarchyFromT"
                     , local
@@ -133,6 +135,7 @@ public:
 
             case Gem::Common::serializationMode::XML: {
                 boost::archive::xml_oarchive oa(oarchive_stream);
+                oarchive_stream.imbue(std::locale(oarchive_stream.getloc(), new boost::math::nonfinite_num_put<char>)); // infinite values and NaN need to be readable again
                 oa << boost::serialization::make_nvp(
                     "classhierarchyFromT"
                     , local
@@ -176,6 +179,7 @@ public:
         switch (serMod) {
             case Gem::Common::serializationMode::TEXT: {
                 boost::archive::text_iarchive ia(istr);
+                istr.imbue(std::locale(istr.getloc(), new boost::math::nonfinite_num_get<char>));
                 ia >> boost::serialization::make_nvp(
                     "classhierarchyFromT"
                     , local
@@ -186,6 +190,7 @@ public:
 
             case Gem::Common::serializationMode::XML: {
                 boost::archive::xml_iarchive ia(istr);
+                istr.imbue(std::locale(istr.getloc(), new boost::math::nonfinite_num_get<char>));
                 ia >> boost::serialization::make_nvp(
                     "classhierarchyFromT"
                     , local
diff --git a/include/common/GSerializationHelperFunctionsT.hpp b/include/common/GSerializationHelperFunctionsT.hpp
index 403ebe5..a81d6b3 100644
--- a/include/common/GSerializationHelperFunctionsT.hpp
+++ b/include/common/GSerializationHelperFunctionsT.hpp
@@ -53,6 +53,7 @@
 
 #include <boost/utility.hpp>
 #include <boost/archive/xml_iarchive.hpp>
+#include <boost/math/special_functions/nonfinite_num_facets.hpp>
 #include <boost/archive/xml_oarchive.hpp>
 #include <boost/archive/text_iarchive.hpp>
 #include <boost/archive/text_oarchive.hpp>
@@ -92,6 +93,7 @@ std::string sharedPtrToString(std::shared_ptr<T> gt_ptr, const Gem::Common::seri
 	switch (serMod) {
 		case Gem::Common::serializationMode::TEXT: {
 			boost::archive::text_oarchive oa(oarchive_stream);
+			oarchive_stream.imbue(std::locale(oarchive_stream.getloc(), new boost::math::nonfinite_num_put<char>)); // infinite values and NaN need to be readable again
 			oa << boost::serialization::make_nvp("classHierarchyFromT_ptr", gt_ptr);
 		} // note: explicit scope here is essential so the oa-destructor gets called
 
@@ -99,6 +101,7 @@ std::string sharedPtrToString(std::shared_ptr<T> gt_ptr, const Gem::Common::seri
 
 		case Gem::Common::serializationMode::XML: {
 			boost::archive::xml_oarchive oa(oarchive_stream);
+			oarchive_stream.imbue(std::locale(oarchive_stream.getloc(), new boost::math::nonfinite_num_put<char>)); // infinite values and NaN need to be readable again
 			oa << boost::serialization::make_nvp("classHierarchyFromT_ptr", gt_ptr);
 		}
 			break;
@@ -132,6 +135,7 @@ std::shared_ptr<T> sharedPtrFromString(const std::string &gt_string, const Gem::
 		switch (serMod) {
 			case Gem::Common::serializationMode::TEXT: {
 				boost::archive::text_iarchive ia(istr);
+				istr.imbue(std::locale(istr.getloc(), new boost::math::nonfinite_num_get<char>));
 				ia >> boost::serialization::make_nvp("classHierarchyFromT_ptr", gt_ptr);
 			} // note: explicit scope here is essential so the ia-destructor gets called
 
@@ -139,6 +143,7 @@ std::shared_ptr<T> sharedPtrFromString(const std::string &gt_string, const Gem::
 
 			case Gem::Common::serializationMode::XML: {
 				boost::archive::xml_iarchive ia(istr);
+				istr.imbue(std::locale(istr.getloc(), new boost::math::nonfinite_num_get<char>));
 				ia >> boost::serialization::make_nvp("classHierarchyFromT_ptr", gt_ptr);
 			}
 
diff --git a/include/courtier/GCommandContainerT.hpp b/include/courtier/GCommandContainerT.hpp
index d11bc85..77ddd96 100644
--- a/include/courtier/GCommandContainerT.hpp
+++ b/include/courtier/GCommandContainerT.hpp
@@ -56,6 +56,7 @@
 #include <boost/beast/websocket/rfc6455.hpp>
 #include <boost/archive/xml_iarchive.hpp>
 #include <boost/archive/xml_oarchive.hpp>
+#include <boost/math/special_functions/nonfinite_num_facets.hpp>
 #include <boost/algorithm/string.hpp>
 #include <boost/serialization/vector.hpp>
 #include <boost/serialization/nvp.hpp>
@@ -232,6 +233,7 @@ std::string container_to_string(
 			case Gem::Common::serializationMode::TEXT: {
 				std::ostringstream oss;
 				boost::archive::text_oarchive oa(oss);
+				oss.imbue(std::locale(oss.getloc(), new boost::math::nonfinite_num_put<char>)); // infinite values and NaN need to be readable again
 				oa << boost::serialization::make_nvp(
 					"command_container"
 					, container
@@ -242,6 +244,7 @@ std::string container_to_string(
 			case Gem::Common::serializationMode::XML: {
 				std::ostringstream oss;
 				boost::archive::xml_oarchive oa(oss);
+				oss.imbue(std::locale(oss.getloc(), new boost::math::nonfinite_num_put<char>)); // infinite values and NaN need to be readable again
 				oa << boost::serialization::make_nvp(
 					"command_container"
 					, container
@@ -319,12 +322,14 @@ void container_from_string(
 			case Gem::Common::serializationMode::TEXT: {
 				std::istringstream iss(descr);
 				boost::archive::text_iarchive ia(iss);
+				iss.imbue(std::locale(iss.getloc(), new boost::math::nonfinite_num_get<char>));
 				ia >> boost::serialization::make_nvp("command_container", container);
 			} break; // archive and stream closed at end of scope
 
 			case Gem::Common::serializationMode::XML: {
 				std::istringstream iss(descr);
 				boost::archive::xml_iarchive ia(iss);
+				iss.imbue(std::locale(iss.getloc(), new boost::math::nonfinite_num_get<char>));
 				ia >> boost::serialization::make_nvp("command_container", container);
 			} break;
 
-- 
2.43.0


From ca640e86dd357a433c593606a5dbcd5597bd48a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 053/107] fix: a batch without items due for processing must
 not block the executor

---
 include/courtier/GExecutorT.hpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index 29f5567..6448e3a 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -302,10 +302,13 @@ public:
 
 			 // Wait for work items to complete. This function needs to
 			 // be re-implemented in derived classes.
-			 auto current_status = waitForReturn(
-				 workItems
-				 , m_old_work_items_cnt
-			 );
+			 // There is nothing to wait for, if no item was due for processing.
+			 auto current_status = (0 == m_expectedNumber) ?
+				 this->checkExecutionState(workItems) :
+				 waitForReturn(
+					 workItems
+					 , m_old_work_items_cnt
+				 );
 
 			 // There may not be errors during resubmission, so we need to save the "error state"
 			 if (current_status.is_complete) status.is_complete = true;
@@ -646,8 +649,8 @@ protected:
 		 m_n_erroneousItems  = this->countItemsWithStatus(workItems, processingStatus::ERROR_FLAGGED);
 		 m_n_erroneousItems += this->countItemsWithStatus(workItems, processingStatus::EXCEPTION_CAUGHT);
 
-		 // Make it known that the first iteration has ended (if this is the first iteration)
-		 if(m_in_first_iteration) {
+		 // Make it known that the first iteration has ended (if this is the first iteration in which items were submitted)
+		 if(m_in_first_iteration && not m_no_items_submitted_in_iteration) {
 			 m_in_first_iteration = false;
 		 }
 
@@ -782,8 +785,10 @@ protected:
 
 		 // Set the start time of the new cycle. How this time is determined depends
 		 // on the actual executor. NOTE that the following call may block, if a start time cannot
-		 // yet be determined.
-		 if(this->inFirstIteration() && this->inFirstCycle()) {
+		 // yet be determined. No start time exists, if no items were submitted at all.
+		 if(0 == nSubmittedItems) {
+			 m_approx_cycle_start_time = this->now();
+		 } else if(this->inFirstIteration() && this->inFirstCycle()) {
 			 m_approx_cycle_start_time = this->determineInitialCycleStartTime();
 		 } else {
 			 m_approx_cycle_start_time = m_cycle_first_submission_time;
-- 
2.43.0


From 7a16138011abfdf131183755b2211d3f21b7414c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 054/107] fix: compare the share of returned work items with
 the configured percentage in the same unit

---
 include/courtier/GExecutorT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index 6448e3a..fa3e386 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -2396,7 +2396,7 @@ private:
 		 if(m_nReturnedCurrent == expectedNumber) return true;
 
 		 // Check if we have reached the minimum percentage
-		 double realPercentage = boost::numeric_cast<double>(m_nReturnedCurrent) / boost::numeric_cast<double>(expectedNumber);
+		 double realPercentage = 100. * boost::numeric_cast<double>(m_nReturnedCurrent) / boost::numeric_cast<double>(expectedNumber);
 		 return (realPercentage >= boost::numeric_cast<double>(this->getMinPartialReturnPercentage()));
 	 }
 
-- 
2.43.0


From 19153f87811dbc8597bd79b7083ea56d59f9b0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 055/107] fix: late work items of different batches are not
 duplicates of each other

---
 include/courtier/GExecutorT.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index fa3e386..bf77ab0 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -623,7 +623,8 @@ protected:
 			 , m_old_work_items_cnt.end()
 			 , [](std::shared_ptr<processable_type> x_ptr, std::shared_ptr<processable_type> y_ptr) -> bool {
 				 using namespace boost;
-				 return x_ptr->getCollectionPosition() <= y_ptr->getCollectionPosition();
+				 return std::make_tuple(x_ptr->getCollectionPosition(), x_ptr->getIterationCounter())
+					 < std::make_tuple(y_ptr->getCollectionPosition(), y_ptr->getIterationCounter());
 			 }
 		 );
 		 // Remove duplicates
@@ -632,7 +633,8 @@ protected:
 				 m_old_work_items_cnt.begin()
 				 , m_old_work_items_cnt.end()
 				 , [](std::shared_ptr<processable_type> x_ptr, std::shared_ptr<processable_type> y_ptr) -> bool {
-					 return x_ptr->getCollectionPosition() == y_ptr->getCollectionPosition();
+					 return x_ptr->getCollectionPosition() == y_ptr->getCollectionPosition()
+						 && x_ptr->getIterationCounter() == y_ptr->getIterationCounter();
 				 }
 			 ) // Returns the begin() of the duplicates moved to the end of the vector
 			 , m_old_work_items_cnt.end()
-- 
2.43.0


From 4a8f277ff148e04a28cb7ebbec23af917907b5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 056/107] fix: a late item arriving first in an iteration must
 not end the submission

---
 include/courtier/GExecutorT.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index bf77ab0..0423919 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -2246,7 +2246,8 @@ private:
 
 			 // For succesfully processed items, update the internal timeout variables,
 			 // so we know how much longer this cycle should run
-			 if(w_ptr->is_processed()) {
+			 // (nothing can be said yet, if only items of earlier iterations have returned so far)
+			 if(w_ptr->is_processed() && m_nReturnedCurrent > 0) {
 				 this->updateTimeout(w_ptr);
 			 }
 		 } while(not halt());
-- 
2.43.0


From 8a909c57ab7ebaf6e5088516a1c55ec8ca9802d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 057/107] fix: resubmission of missing work items must cope
 with items that have failed

---
 include/courtier/GExecutorT.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index 0423919..f0a8668 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -774,7 +774,8 @@ protected:
 
 				 // Update the submission counter
 				 nSubmittedItems++;
-			 } else if(processingStatus::DO_IGNORE != ps && processingStatus::PROCESSED != ps) {
+			 } else if(this->inFirstCycle() && processingStatus::DO_IGNORE != ps && processingStatus::PROCESSED != ps) {
+				 // Note that items may have returned with errors, when others are resubmitted
 				 throw gemfony_exception(
 					 g_error_streamer(DO_LOG, time_and_place)
 						 << "In GBaseExecutorT<processable_type>::submitAllWorkItems(): Error" << std::endl
-- 
2.43.0


From c45be9080db45dc0fb3a651e48bb6c2cca63bd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 058/107] fix: do not wait forever for a first successful item
 when items fail

---
 include/courtier/GExecutorT.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index f0a8668..1301c01 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -2245,10 +2245,10 @@ private:
 			 // No need to continue if all currently submitted work items have returned
 			 if(status.is_complete) break;
 
-			 // For succesfully processed items, update the internal timeout variables,
+			 // For items that were worked on, update the internal timeout variables,
 			 // so we know how much longer this cycle should run
 			 // (nothing can be said yet, if only items of earlier iterations have returned so far)
-			 if(w_ptr->is_processed() && m_nReturnedCurrent > 0) {
+			 if((w_ptr->is_processed() || w_ptr->has_errors()) && m_nReturnedCurrent > 0) {
 				 this->updateTimeout(w_ptr);
 			 }
 		 } while(not halt());
@@ -2434,7 +2434,7 @@ private:
 		 // We have no information on which we might base a timeout.
 		 if(this->firstRetrieval()) {
 			 do {
-				 // Wait indefinitely for the very first, successfully processed individual
+				 // Wait indefinitely for the very first individual
 				 w_ptr = this->retrieve();
 
 				 // It is a severe error if we get an empty pointer here
@@ -2453,11 +2453,18 @@ private:
 				 // a warning, as this should be a very rare case
 				 if(w_ptr->is_processed()) {
 					 break;
-				 } else { // unprocessed or has an error
+				 } else if(w_ptr->has_errors()) {
 					 glogger
 						 << "In GBrokerExecutorT<>::getNextItem():" << std::endl
-						 << "Received \"first\" individual which is either" << std::endl
-						 << "unprocessed or has errors. Got processing status of " << w_ptr->getProcessingStatus() << std::endl
+						 << "Received \"first\" individual with errors. Got processing status of " << w_ptr->getProcessingStatus() << std::endl
+						 << "but expected " << processingStatus::PROCESSED << " ." << std::endl
+						 << "As this should be a rare occurance, we do emit a warning here." << std::endl
+						 << GWARNING;
+					 break;
+				 } else { // unprocessed
+					 glogger
+						 << "In GBrokerExecutorT<>::getNextItem():" << std::endl
+						 << "Received unprocessed \"first\" individual. Got processing status of " << w_ptr->getProcessingStatus() << std::endl
 						 << "but expected " << processingStatus::PROCESSED << " ." << std::endl
 						 << "The item will be discarded. As this should be a rare occurance," << std::endl
 						 << "we do emit a warning here." << std::endl
-- 
2.43.0


From d47225e4a8cdd4ec546c8178c6ecedc26312077b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 059/107] fix: failing work items must not abort multi-threaded
 evaluation in release builds

---
 include/courtier/GExecutorT.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index 1301c01..eddb936 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -1662,7 +1662,6 @@ protected:
 			 // Retrieve the future and check for errors
 			 try {
 				 result_type r = f.get();
-#ifdef DEBUG
 			 } catch(const g_processing_exception& e) {
 				 // This is an expected exception if processing has failed. We do nothing,
 				 // it is up to the caller to decide what to do with processing errors, and
@@ -1679,7 +1678,6 @@ protected:
 					 << "unsuccessful in the work item. We leave it to the" << std::endl
 					 << "caller to deal with this." << std::endl
 					 << GWARNING;
-#endif
 			 } catch(const std::exception& e) {
 				 throw gemfony_exception(
 					 g_error_streamer(DO_LOG, time_and_place)
-- 
2.43.0


From 363e92276738f910f14e9492f1f65e6e85cebb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 060/107] fix: a producer that leaves with work outstanding
 must not take down the local consumers

---
 include/courtier/GSerialConsumerT.hpp    | 9 ++++++++-
 include/courtier/GStdThreadConsumerT.hpp | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/courtier/GSerialConsumerT.hpp b/include/courtier/GSerialConsumerT.hpp
index 84eaf19..3552403 100644
--- a/include/courtier/GSerialConsumerT.hpp
+++ b/include/courtier/GSerialConsumerT.hpp
@@ -251,7 +251,14 @@ private:
 				 , [this](
 					 std::shared_ptr<processable_type> p
 					 , const std::chrono::milliseconds& timeout
-				 ) -> void { m_broker_ptr->put(p, timeout); }
+				 ) -> void {
+				 	try {
+				 		m_broker_ptr->put(p, timeout);
+				 	} catch(Gem::Courtier::buffer_not_present&) {
+				 		// The producer has disconnected in the meantime. There is
+				 		// nobody left who is interested in this item.
+				 	}
+				 }
 				 //----------------------
 				 , [this]() -> bool { return this->stopped(); }
 				 //----------------------
diff --git a/include/courtier/GStdThreadConsumerT.hpp b/include/courtier/GStdThreadConsumerT.hpp
index 8cde55a..78a60f1 100644
--- a/include/courtier/GStdThreadConsumerT.hpp
+++ b/include/courtier/GStdThreadConsumerT.hpp
@@ -341,7 +341,14 @@ private:
 					 , [this](
 						 std::shared_ptr<processable_type> p
 						 , const std::chrono::milliseconds& timeout
-					 ) -> void { m_broker_ptr->put(p, timeout); }
+					 ) -> void {
+					 	try {
+					 		m_broker_ptr->put(p, timeout);
+					 	} catch(Gem::Courtier::buffer_not_present&) {
+					 		// The producer has disconnected in the meantime. There is
+					 		// nobody left who is interested in this item.
+					 	}
+					 }
 					 //----------------------
 					 , [this]() -> bool { return this->stopped(); }
 					 //----------------------
-- 
2.43.0


From 73426027cc5894cf67082dbb4575e51a13d98be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 061/107] fix: a submission must not time out at once, because
 an earlier one has only had a single item

---
 include/courtier/GExecutorT.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index eddb936..5ca720f 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -2240,15 +2240,15 @@ private:
 				 , oldWorkItems
 			 );
 
-			 // No need to continue if all currently submitted work items have returned
-			 if(status.is_complete) break;
-
 			 // For items that were worked on, update the internal timeout variables,
 			 // so we know how much longer this cycle should run
 			 // (nothing can be said yet, if only items of earlier iterations have returned so far)
 			 if((w_ptr->is_processed() || w_ptr->has_errors()) && m_nReturnedCurrent > 0) {
 				 this->updateTimeout(w_ptr);
 			 }
+
+			 // No need to continue if all currently submitted work items have returned
+			 if(status.is_complete) break;
 		 } while(not halt());
 
 		 // Check for the processing flags and derive the is_complete and has_errors states
-- 
2.43.0


From e8eff1d8a07ecb92ff0027a584e04fff57ac62ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 062/107] fix: producers that disconnect while another one
 enrols must not confuse the broker

---
 include/courtier/GBrokerT.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/courtier/GBrokerT.hpp b/include/courtier/GBrokerT.hpp
index a657176..3c2f414 100644
--- a/include/courtier/GBrokerT.hpp
+++ b/include/courtier/GBrokerT.hpp
@@ -230,9 +230,10 @@ public:
 		 }
 #endif
 
+		 // Producers may disconnect at any time, so we must not ask for the connection status again
 		 std::size_t nErasedProc = Gem::Common::erase_if(
 			 m_ProcessedBuffers
-			 , [](const std::pair<BUFFERPORT_ID_TYPE, GBUFFERPORT_PTR>& p) -> bool { return (not p.second->is_connected_to_producer()); }
+			 , [this](const std::pair<BUFFERPORT_ID_TYPE, GBUFFERPORT_PTR>& p) -> bool { return (m_RawBuffers.find(p.first) == m_RawBuffers.end()); }
 		 ); // m_ProcessedBuffers is a std::map, so items are of type std::pair
 
 #ifdef DEBUG
-- 
2.43.0


From 8d68a36ec39ab21bf610bd9ff4276230cf3334d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:56 +0000
Subject: [PATCH 063/107] fix: a message in XML format is only complete when
 its archive has been closed

---
 include/courtier/GCommandContainerT.hpp | 40 ++++++++++++++-----------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/include/courtier/GCommandContainerT.hpp b/include/courtier/GCommandContainerT.hpp
index 77ddd96..9a6e710 100644
--- a/include/courtier/GCommandContainerT.hpp
+++ b/include/courtier/GCommandContainerT.hpp
@@ -232,33 +232,39 @@ std::string container_to_string(
 		switch (serMode) {
 			case Gem::Common::serializationMode::TEXT: {
 				std::ostringstream oss;
-				boost::archive::text_oarchive oa(oss);
-				oss.imbue(std::locale(oss.getloc(), new boost::math::nonfinite_num_put<char>)); // infinite values and NaN need to be readable again
-				oa << boost::serialization::make_nvp(
-					"command_container"
-					, container
-				);
+				{
+					boost::archive::text_oarchive oa(oss);
+					oss.imbue(std::locale(oss.getloc(), new boost::math::nonfinite_num_put<char>)); // infinite values and NaN need to be readable again
+					oa << boost::serialization::make_nvp(
+						"command_container"
+						, container
+					);
+				} // the archive is only complete once it has been destroyed
 				return oss.str();
 			} break; // archive and stream closed at end of scope
 
 			case Gem::Common::serializationMode::XML: {
 				std::ostringstream oss;
-				boost::archive::xml_oarchive oa(oss);
-				oss.imbue(std::locale(oss.getloc(), new boost::math::nonfinite_num_put<char>)); // infinite values and NaN need to be readable again
-				oa << boost::serialization::make_nvp(
-					"command_container"
-					, container
-				);
+				{
+					boost::archive::xml_oarchive oa(oss);
+					oss.imbue(std::locale(oss.getloc(), new boost::math::nonfinite_num_put<char>)); // infinite values and NaN need to be readable again
+					oa << boost::serialization::make_nvp(
+						"command_container"
+						, container
+					);
+				} // the archive is only complete once it has been destroyed -- its destructor writes the closing tag
 				return oss.str();
 			} break;
 
 			case Gem::Common::serializationMode::BINARY: {
 				std::ostringstream oss(std::ios_base::binary);
-				boost::archive::binary_oarchive oa(oss);
-				oa << boost::serialization::make_nvp(
-					"command_container"
-					, container
-				);
+				{
+					boost::archive::binary_oarchive oa(oss);
+					oa << boost::serialization::make_nvp(
+						"command_container"
+						, container
+					);
+				} // the archive is only complete once it has been destroyed
 				return oss.str();
 			} break;
 		}
-- 
2.43.0


From 2480beaf457c5f588f8f977902cde9d76dbc9a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:13 +0000
Subject: [PATCH 064/107] fix: a truncated message in XML format must be
 rejected instead of ending the process

---
 include/courtier/GCommandContainerT.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/courtier/GCommandContainerT.hpp b/include/courtier/GCommandContainerT.hpp
index 9a6e710..b55ddbb 100644
--- a/include/courtier/GCommandContainerT.hpp
+++ b/include/courtier/GCommandContainerT.hpp
@@ -337,6 +337,10 @@ void container_from_string(
 				boost::archive::xml_iarchive ia(iss);
 				iss.imbue(std::locale(iss.getloc(), new boost::math::nonfinite_num_get<char>));
 				ia >> boost::serialization::make_nvp("command_container", container);
+				// The destructor of the archive throws if it does not find the
+				// closing tag, which a truncated message may lack
+				iss.clear();
+				iss.str("</boost_serialization>\n");
 			} break;
 
 			case Gem::Common::serializationMode::BINARY: {
-- 
2.43.0


From 0970e19a9e03427f44d28b9f251f942c734e10d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:55 +0000
Subject: [PATCH 065/107] fix: a client that vanishes while it is being
 answered must not end the server

---
 include/courtier/GAsioConsumerT.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/courtier/GAsioConsumerT.hpp b/include/courtier/GAsioConsumerT.hpp
index 1f8fd2c..eee3e07 100644
--- a/include/courtier/GAsioConsumerT.hpp
+++ b/include/courtier/GAsioConsumerT.hpp
@@ -638,8 +638,10 @@ private:
 		 }
 
 		 // Shutdown the socket in send direction. This will result in an ec of boost::asio::error::eof
-		 // on the client-side indicating that all data was written.
-		 m_socket.shutdown(boost::asio::socket_base::shutdown_send);
+		 // on the client-side indicating that all data was written. The call may fail if the client
+		 // has already gone away, which must not affect the server.
+		 boost::system::error_code shutdown_ec;
+		 m_socket.shutdown(boost::asio::socket_base::shutdown_send, shutdown_ec);
 
 		 // Clear the outgoing message string, no longer needed
 		 m_outgoing_message_str.clear();
-- 
2.43.0


From 920f83b358dda8b1895efa35cd48dc8ec74f2202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:55 +0000
Subject: [PATCH 066/107] fix: an asio client must terminate in order when the
 server goes away while answering

---
 include/courtier/GAsioConsumerT.hpp | 36 ++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/include/courtier/GAsioConsumerT.hpp b/include/courtier/GAsioConsumerT.hpp
index eee3e07..ca2d493 100644
--- a/include/courtier/GAsioConsumerT.hpp
+++ b/include/courtier/GAsioConsumerT.hpp
@@ -315,7 +315,19 @@ private:
 
 		 // Shutdown the socket in send direction. This will result in an ec of boost::asio::error::eof
 		 // on the server side indicating that all data was written.
-		 m_socket_ptr->shutdown(boost::asio::socket_base::shutdown_send);
+		 boost::system::error_code shutdown_ec;
+		 m_socket_ptr->shutdown(boost::asio::socket_base::shutdown_send, shutdown_ec);
+		 if(shutdown_ec) { // The server has gone away
+			 glogger
+				 << "In GAsioConsumerClientT<processable_type>::when_written():" << std::endl
+				 << "Got ec(\"" << shutdown_ec.message() << "\") when shutting down the socket." << std::endl
+				 << "This will terminate the client." << std::endl
+				 << GLOGGING;
+
+			 // Terminate operation and return
+			 this->shutdown();
+			 return;
+		 }
 
 		 // Clear the outgoing message -- no longer needed
 		 m_outgoing_message_str.clear();
@@ -381,11 +393,23 @@ private:
 	  */
 	 void async_process_request(){
 		 // Extract the string from the buffer and de-serialize the object
-		 Gem::Courtier::container_from_string(
-			 m_incoming_message_str
-			 , m_command_container
-			 , m_serialization_mode
-		 ); // may throw
+		 try {
+			 Gem::Courtier::container_from_string(
+				 m_incoming_message_str
+				 , m_command_container
+				 , m_serialization_mode
+			 ); // may throw
+		 } catch(const std::exception& e) {
+			 glogger
+				 << "In GAsioConsumerClientT<processable_type>::async_process_request():" << std::endl
+				 << "Could not make sense of the answer of the server: " << e.what() << std::endl
+				 << "This will terminate the client." << std::endl
+				 << GWARNING;
+
+			 // Terminate operation and return
+			 this->shutdown();
+			 return;
+		 }
 
 		 // Clear the buffer, so we may later fill it with data to be sent
 		 m_incoming_message_str.clear();
-- 
2.43.0


From cc1168d37c16a572896ca23e5812eb6d8bdc7669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:55 +0000
Subject: [PATCH 067/107] fix: networked clients must return items whose
 processing has failed instead of dying or hanging

---
 include/courtier/GAsioConsumerT.hpp      | 13 ++++++++++++-
 include/courtier/GWebsocketConsumerT.hpp | 13 ++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/courtier/GAsioConsumerT.hpp b/include/courtier/GAsioConsumerT.hpp
index ca2d493..66e60f5 100644
--- a/include/courtier/GAsioConsumerT.hpp
+++ b/include/courtier/GAsioConsumerT.hpp
@@ -421,7 +421,18 @@ private:
 		 switch(inboundCommand) {
 			 case networked_consumer_payload_command::COMPUTE: {
 				 // Process the work item ...
-				 m_command_container.process();
+				 try {
+					 m_command_container.process();
+				 } catch(const g_processing_exception& e) {
+					 // The work item has been marked accordingly. It is up to
+					 // its recipient on the server-side to decide on its fate
+					 glogger
+						 << "In GAsioConsumerClientT<processable_type>::async_process_request():" << std::endl
+						 << "The work item has flagged a processing exception with the message" << std::endl
+						 << e << std::endl
+						 << "The item will be returned." << std::endl
+						 << GWARNING;
+				 }
 
 				 // Update the processed counter
 		       this->incrementProcessingCounter();
diff --git a/include/courtier/GWebsocketConsumerT.hpp b/include/courtier/GWebsocketConsumerT.hpp
index 072a0f5..86fac84 100644
--- a/include/courtier/GWebsocketConsumerT.hpp
+++ b/include/courtier/GWebsocketConsumerT.hpp
@@ -482,7 +482,18 @@ private:
 		 switch(inboundCommand) {
 			 case networked_consumer_payload_command::COMPUTE: {
 				 // Process the work item
-				 m_command_container.process();
+				 try {
+					 m_command_container.process();
+				 } catch(const g_processing_exception& e) {
+					 // The work item has been marked accordingly. It is up to
+					 // its recipient on the server-side to decide on its fate
+					 glogger
+						 << "In GWebsocketClientT<processable_type>::process_request():" << std::endl
+						 << "The work item has flagged a processing exception with the message" << std::endl
+						 << e << std::endl
+						 << "The item will be returned." << std::endl
+						 << GWARNING;
+				 }
 
 				 // Update the processed counter
 				 this->incrementProcessingCounter();
-- 
2.43.0


From ee5cb03b8722c8dcfd6edd4c03b859fec011420c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:55 +0000
Subject: [PATCH 068/107] fix: reuse_address must be set before the server
 binds to its address

---
 include/courtier/GAsioConsumerT.hpp      | 8 ++++----
 include/courtier/GWebsocketConsumerT.hpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/courtier/GAsioConsumerT.hpp b/include/courtier/GAsioConsumerT.hpp
index 66e60f5..7da28d5 100644
--- a/include/courtier/GAsioConsumerT.hpp
+++ b/include/courtier/GAsioConsumerT.hpp
@@ -1034,6 +1034,10 @@ private:
 			 }
 		 }
 
+		 // Some acceptor options
+		 boost::asio::socket_base::reuse_address option(true);
+		 m_acceptor.set_option(option);
+
 		 // Bind to the server address
 		 m_acceptor.bind(m_endpoint, ec);
 		 if(ec) {
@@ -1044,10 +1048,6 @@ private:
 			 );
 		 }
 
-		 // Some acceptor options
-		 boost::asio::socket_base::reuse_address option(true);
-		 m_acceptor.set_option(option);
-
 		 // Start listening for connections
 		 m_acceptor.listen(boost::asio::socket_base::max_listen_connections, ec);
 		 if(ec) {
diff --git a/include/courtier/GWebsocketConsumerT.hpp b/include/courtier/GWebsocketConsumerT.hpp
index 86fac84..2b8c8b4 100644
--- a/include/courtier/GWebsocketConsumerT.hpp
+++ b/include/courtier/GWebsocketConsumerT.hpp
@@ -1305,6 +1305,10 @@ private:
 			 }
 		 }
 
+		 // Some acceptor options
+		 boost::asio::socket_base::reuse_address option(true);
+		 m_acceptor.set_option(option);
+
 		 // Bind to the server address
 		 m_acceptor.bind(m_endpoint, ec);
 		 if(ec) {
@@ -1315,10 +1319,6 @@ private:
 			 );
 		 }
 
-		 // Some acceptor options
-		 boost::asio::socket_base::reuse_address option(true);
-		 m_acceptor.set_option(option);
-
 		 // Start listening for connections  TODO: Check if this should be increased
 		 m_acceptor.listen(boost::asio::socket_base::max_listen_connections, ec);
 		 if(ec) {
-- 
2.43.0


From c1462516dc9869b5427bc9829e03d4c032c1b2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:10 +0000
Subject: [PATCH 069/107] fix: networked clients must be answered when the
 producer of their result is gone

---
 include/courtier/GAsioConsumerT.hpp      | 17 +++++++++++------
 include/courtier/GWebsocketConsumerT.hpp | 17 +++++++++++------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/include/courtier/GAsioConsumerT.hpp b/include/courtier/GAsioConsumerT.hpp
index 7da28d5..7edd5a2 100644
--- a/include/courtier/GAsioConsumerT.hpp
+++ b/include/courtier/GAsioConsumerT.hpp
@@ -1149,12 +1149,17 @@ private:
 			 );
 		 }
 
-		 if(not m_broker_ptr->put(p, m_timeout)) {
-			 glogger
-				 << "In GAsioConsumerT<>::putPayloadItem():" << std::endl
-				 << "Work item could not be submitted to the broker" << std::endl
-				 << "The item will be discarded" << std::endl
-				 << GWARNING;
+		 try {
+			 if(not m_broker_ptr->put(p, m_timeout)) {
+				 glogger
+					 << "In GAsioConsumerT<>::putPayloadItem():" << std::endl
+					 << "Work item could not be submitted to the broker" << std::endl
+					 << "The item will be discarded" << std::endl
+					 << GWARNING;
+			 }
+		 } catch(Gem::Courtier::buffer_not_present&) {
+			 // The producer of this item has vanished in the meantime. The broker has
+			 // already emitted a warning. The client must nevertheless receive an answer.
 		 }
 	 }
 
diff --git a/include/courtier/GWebsocketConsumerT.hpp b/include/courtier/GWebsocketConsumerT.hpp
index 2b8c8b4..1163ffc 100644
--- a/include/courtier/GWebsocketConsumerT.hpp
+++ b/include/courtier/GWebsocketConsumerT.hpp
@@ -1439,12 +1439,17 @@ private:
 			 );
 		 }
 
-		 if(not m_broker_ptr->put(p, m_timeout)) {
-			 glogger
-				 << "In GWebsocketConsumerT<>::putPayloadItem():" << std::endl
-				 << "Work item could not be submitted to the broker" << std::endl
-				 << "The item will be discarded" << std::endl
-				 << GWARNING;
+		 try {
+			 if(not m_broker_ptr->put(p, m_timeout)) {
+				 glogger
+					 << "In GWebsocketConsumerT<>::putPayloadItem():" << std::endl
+					 << "Work item could not be submitted to the broker" << std::endl
+					 << "The item will be discarded" << std::endl
+					 << GWARNING;
+			 }
+		 } catch(Gem::Courtier::buffer_not_present&) {
+			 // The producer of this item has vanished in the meantime. The broker has
+			 // already emitted a warning. The client must nevertheless receive an answer.
 		 }
 	 }
 
-- 
2.43.0


From efeaec2502b572c3b4dff9cce4e22be18e63c6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:10 +0000
Subject: [PATCH 070/107] fix: an item with an invalid position returned by a
 client must not end the submission

---
 include/courtier/GExecutorT.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index 5ca720f..604f538 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -2594,6 +2594,18 @@ private:
 			 // Extract the original position of the work item and cross-check
 			 std::size_t worker_position = w_ptr->getCollectionPosition();
 
+			 // A position outside of the current collection (e.g. in an item received from
+			 // a misbehaving client) cannot belong to this submission. Ignore the item.
+			 if(worker_position >= workItems.size()) {
+				 glogger
+					 << "In GBrokerExecutorT<>::addWorkItemAndCheckCompleteness():" << std::endl
+					 << "Received work item with invalid position " << worker_position << std::endl
+					 << "when only " << workItems.size() << " positions are available." << std::endl
+					 << "The item will be discarded" << std::endl
+					 << GWARNING;
+
+				 return executor_status_t{false /* is_complete */, false /* has_errors */ };
+			 }
 			 // Add the work item to the list in the desired position. Re-submitted items
 			 // might return twice, so we only add them if a processed item hasn't been added yet.
 			 // We also take care of the situation that w_ptr points to the same object as the one
-- 
2.43.0


From 7a1f40616a438fede369f676385bb1e42db64cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:32 +0000
Subject: [PATCH 071/107] fix: a websocket client must not hang when dealing
 with a message fails or a halt criterion is reached

---
 include/courtier/GWebsocketConsumerT.hpp | 98 +++++++++++++++++++-----
 1 file changed, 79 insertions(+), 19 deletions(-)

diff --git a/include/courtier/GWebsocketConsumerT.hpp b/include/courtier/GWebsocketConsumerT.hpp
index 1163ffc..47ac046 100644
--- a/include/courtier/GWebsocketConsumerT.hpp
+++ b/include/courtier/GWebsocketConsumerT.hpp
@@ -228,8 +228,12 @@ private:
 	  * @param message The message to be transferred to the peer
 	  */
 	 void async_start_write(const std::string& message) {
-		 // Do nothing if we have been asked to stop
-		 if(this->halt()) return;
+		 // Terminate the client if we have been asked to stop. Note that
+		 // there may be an outstanding read session.
+		 if(this->halt()) {
+			 async_start_close(m_close_code);
+			 return;
+		 }
 
 		 // We need to persist the message for asynchronous operations.
 		 // It is hence stored in a class variable.
@@ -248,6 +252,26 @@ private:
 		 );
 	 }
 
+	 //-------------------------------------------------------------------------
+	 /**
+	  * Asynchronously closes the connection to the peer. As a consequence, any
+	  * outstanding read session will end and the client will terminate.
+	  *
+	  * @param cc The close code to be sent to the peer
+	  */
+	 void async_start_close(close_code cc) {
+		 m_close_code = cc;
+
+		 auto self = this->shared_from_this();
+		 m_ws.async_close(
+			 cc
+			 , [self](boost::system::error_code /* unused */) {
+				 boost::system::error_code ec;
+				 self->m_ws.next_layer().close(ec);
+			 }
+		 );
+	 }
+
 	 //-------------------------------------------------------------------------
 	 /**
 	  * Starts a new read session
@@ -434,11 +458,18 @@ private:
 		 // Deal with the message and send a response back. Processing
 		 // of work items is done inside of process_request().
 		 try {
+			 // Extract the string from the buffer
+			 auto message = boost::beast::buffers_to_string(m_incoming_buffer.data());
+
+			 // Clear the buffer, so the next read session may fill it again
+			 m_incoming_buffer.consume(m_incoming_buffer.size());
+
 			 // Start asynchronous processing of the work item.
+			 m_processing_is_active = true;
 			 auto self = this->shared_from_this();
 			 m_gtp.async_schedule(
-				 [self]() {
-					 self->process_request();
+				 [self, message]() {
+					 self->process_request(message);
 				 }
 			 );
 
@@ -456,18 +487,48 @@ private:
 
 	 //-------------------------------------------------------------------------
 	 /**
-	  * Processing of incoming messages and creation of responses takes place here
+	  * Runs the processing of an incoming message in a thread of the pool and
+	  * passes the response to the io_context, which does all communication.
+	  *
+	  * @param message The message received from the server
 	  */
-	 void process_request(){
-	 	 // Make it known that we are processing a new work item
-		 m_processing_is_active = true;
+	 void process_request(const std::string& message) {
+		 auto self = this->shared_from_this();
 
-		 // Extract the string from the buffer
-		 auto message = boost::beast::buffers_to_string(m_incoming_buffer.data());
+		 try {
+			 auto response = create_response(message);
+
+			 boost::asio::post(
+				 m_io_context
+				 , [self, response]() {
+					 self->m_processing_is_active = false;
+					 self->async_start_write(response);
+				 }
+			 );
+		 } catch(...) {
+			 glogger
+				 << "In GWebsocketClientT<processable_type>::process_request():" << std::endl
+				 << "Caught exception while dealing with a message of the server." << std::endl
+				 << "This will terminate the client." << std::endl
+				 << GWARNING;
 
-		 // Clear the buffer, so we may later fill it with data to be sent
-		 m_incoming_buffer.consume(m_incoming_buffer.size());
+			 boost::asio::post(
+				 m_io_context
+				 , [self]() {
+					 self->async_start_close(boost::beast::websocket::close_code::internal_error);
+				 }
+			 );
+		 }
+	 }
 
+	 //-------------------------------------------------------------------------
+	 /**
+	  * Processing of incoming messages and creation of responses takes place here
+	  *
+	  * @param message The message received from the server
+	  * @return The response to be sent to the server
+	  */
+	 std::string create_response(const std::string& message) {
 		 // De-serialize the object
 		 Gem::Courtier::container_from_string(
 			 message
@@ -524,11 +585,8 @@ private:
 			 } /* break; */  // break is unreachable
 		 }
 
-		 // Processing has finished
-		 m_processing_is_active = false;
-
 		 // Serialize the object again and return the result
-		 this->async_start_write(Gem::Courtier::container_to_string(m_command_container, m_serialization_mode));
+		 return Gem::Courtier::container_to_string(m_command_container, m_serialization_mode);
 	 }
 
 	 //-------------------------------------------------------------------------
@@ -538,13 +596,15 @@ private:
 	  * @param cc The close code to be sent to the peer
 	  */
 	 void do_close(close_code cc) {
+		 boost::system::error_code ec;
+
+		 // The server may already have gone away, so errors
+		 // while saying goodbye are of no interest
 		 if(m_ws.is_open()) {
-			 m_ws.close(cc);
+			 m_ws.close(cc, ec);
 		 }
 
 		 if(m_ws.next_layer().is_open()) {
-			 boost::system::error_code ec;
-
 			 m_ws.next_layer().shutdown(socket::shutdown_both, ec);
 			 m_ws.next_layer().close(ec);
 
-- 
2.43.0


From 57422b93ea70519cf921168bca735b5e6ab084c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:01 +0000
Subject: [PATCH 072/107] fix: closing the connection to a websocket client
 must neither block nor end the server

---
 include/courtier/GWebsocketConsumerT.hpp | 57 +++++++++++++++++++-----
 1 file changed, 46 insertions(+), 11 deletions(-)

diff --git a/include/courtier/GWebsocketConsumerT.hpp b/include/courtier/GWebsocketConsumerT.hpp
index 47ac046..116b1fe 100644
--- a/include/courtier/GWebsocketConsumerT.hpp
+++ b/include/courtier/GWebsocketConsumerT.hpp
@@ -767,6 +767,15 @@ public:
 		 m_ws.auto_fragment(true);
 #if (BOOST_VERSION >= 107000)
          m_ws.write_buffer_bytes(16384);
+
+         // Limit the time spent on opening and closing handshakes, as clients may never answer
+         m_ws.set_option(
+             boost::beast::websocket::stream_base::timeout{
+                 std::chrono::seconds(30) // handshakes
+                 , boost::beast::websocket::stream_base::none() // idle timeout
+                 , false // keep-alive pings
+             }
+         );
 #else
          m_ws.write_buffer_size(16384);
 #endif
@@ -1027,7 +1036,8 @@ private:
 		 }
 
 		 // Deal with the message and send a response back
-		 async_start_write(process_request());
+		 auto response = process_request();
+		 if(not m_is_closing) async_start_write(std::move(response));
 	 }
 
 	 //-------------------------------------------------------------------------
@@ -1081,15 +1091,39 @@ private:
 		 m_timer.cancel();
 
 		 if(m_ws.is_open()) {
-			 // Close the connection
-			 m_ws.close(cc);
+			 // Close the connection, unless this is already under way. This must not block
+			 // the current thread, as the client may never answer. The operation will end
+			 // after the handshake timeout in this case.
+			 if(not m_is_closing) {
+				 m_is_closing = true;
+
+				 auto self = this->shared_from_this();
+				 m_ws.async_close(
+					 cc
+					 , boost::asio::bind_executor(
+						 m_strand
+						 , [self](boost::system::error_code /* unused */) {
+							 self->close_socket();
+						 }
+					 )
+				 );
+			 }
+		 } else {
+			 close_socket();
 		 }
+	 }
 
+	 //-------------------------------------------------------------------------
+	 /**
+	  * Closes the ASIO connection to the peer
+	  */
+	 void close_socket() {
 		 if(m_ws.next_layer().is_open()) {
 			 boost::system::error_code ec;
 
 			 // Closing the socket cancels all outstanding operations. They
-			 // will complete with boost::asio::error::operation_aborted
+			 // will complete with boost::asio::error::operation_aborted.
+			 // The client may already have gone away, so shutdown may fail.
 			 m_ws.next_layer().shutdown(
 				 boost::asio::ip::tcp::socket::shutdown_both
 				 , ec
@@ -1097,13 +1131,13 @@ private:
 			 m_ws.next_layer().close(ec);
 
 			 if (ec) {
-				 // Not much else we can do here
-				 throw gemfony_exception(
-					 g_error_streamer(DO_LOG,  time_and_place)
-						 << "GWebsocketConsumerSessionT<processable_type>::do_close():" << std::endl
-						 << "Shutdown of next layer has failed" << std::endl
-						 << "Got error code " << ec.message() << std::endl
-				 );
+				 // Not much else we can do here. Problems with
+				 // a single client must not affect the server.
+				 glogger
+					 << "GWebsocketConsumerSessionT<processable_type>::close_socket():" << std::endl
+					 << "Shutdown of next layer has failed" << std::endl
+					 << "Got error code " << ec.message() << std::endl
+					 << GWARNING;
 			 }
 		 }
 	 }
@@ -1218,6 +1252,7 @@ private:
 
 	 const std::chrono::seconds m_ping_interval{GBEASTCONSUMERPINGINTERVAL}; // Time between two pings in seconds
 	 bool m_verbose_control_frames = false;
+	 bool m_is_closing = false; ///< Indicates that the closing handshake is under way
 
 	 std::atomic<beast_ping_state> m_ping_state{beast_ping_state::CONNECTION_IS_ALIVE};
 	 const boost::beast::websocket::ping_data m_ping_data{};
-- 
2.43.0


From 1d03591da552fe9eb325ec87ad325a176825e6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:28 +0000
Subject: [PATCH 073/107] fix: a solution dominates another one only if it is
 at least as good in all criteria and better in one

---
 .../G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
index b3124d7..4d2a4a9 100644
--- a/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
@@ -1172,12 +1172,17 @@ bool GEvolutionaryAlgorithm::aDominatesB(
 #endif
 
 	// x dominates y, if none of its fitness criteria is worse than the
-	// corresponding criterion from y
+	// corresponding criterion from y and at least one of them is better
+	bool is_better = false;
 	for (std::size_t i = 0; i < nCriteriaX; i++) {
-		if(isWorse(x_ptr, y_ptr)) return false;
+		const double x = minOnly_transformed_fitness(x_ptr, i);
+		const double y = minOnly_transformed_fitness(y_ptr, i);
+
+		if(x > y) return false;
+		if(x < y) is_better = true;
 	}
 
-	return true;
+	return is_better;
 }
 
 /******************************************************************************/
-- 
2.43.0


From 00681b38f7bdbb9035dc84220e0a8890aa79620b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:28 +0000
Subject: [PATCH 074/107] fix: the population growth must also raise the number
 of children

---
 src/geneva/G_OptimizationAlgorithm_ParChild.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geneva/G_OptimizationAlgorithm_ParChild.cpp b/src/geneva/G_OptimizationAlgorithm_ParChild.cpp
index a5b2c24..0326ebd 100644
--- a/src/geneva/G_OptimizationAlgorithm_ParChild.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_ParChild.cpp
@@ -661,6 +661,7 @@ void G_OptimizationAlgorithm_ParChild::performScheduledPopulationGrowth() {
 		) {
 		// Set a new default population size
 		this->setPopulationSizes(this->getDefaultPopulationSize() + m_growth_rate, this->getNParents());
+		m_default_n_children = this->getDefaultPopulationSize() - m_n_parents;
 
 		// Add missing items as copies of the last individual in the list
 		this->resize_clone(G_OptimizationAlgorithm_Base::getDefaultPopulationSize(), G_OptimizationAlgorithm_Base::m_data_cnt[0]);
-- 
2.43.0


From 25d49c7f56371651b583f678261c8446b0c34972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:57 +0000
Subject: [PATCH 075/107] fix: simulated annealing must begin with the start
 temperature that was set

---
 src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
index f481268..c93bf90 100644
--- a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
@@ -244,6 +244,9 @@ void GSimulatedAnnealing::setT0(double t0) {
 	}
 
 	m_t0 = t0;
+
+	// The annealing process starts with this temperature
+	m_t = m_t0;
 }
 
 /******************************************************************************/
-- 
2.43.0


From 8694cd216f077d33bd0b45cdb842758b92ee020e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:03 +0000
Subject: [PATCH 076/107] fix: simulated annealing needs at least as many
 children as parents

---
 src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
index c93bf90..5ade01e 100644
--- a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
@@ -326,7 +326,7 @@ void GSimulatedAnnealing::populationSanityChecks_() const {
 
 	// We need at least as many children as parents
 	std::size_t popSize = this->getPopulationSize();
-	if (popSize <= this->m_n_parents) {
+	if (popSize < 2 * this->m_n_parents) {
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG,  time_and_place)
 				<< "In GSimulatedAnnealing::populationSanityChecks() :" << std::endl
-- 
2.43.0


From 9ce452cdc75553e7c57b8d1140272267b9bf62b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:47 +0000
Subject: [PATCH 077/107] fix: the order of the parents must survive the
 evaluation of populations with more than 16 individuals

---
 src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp | 5 +++--
 src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp    | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
index 4d2a4a9..0244c6e 100644
--- a/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
@@ -600,8 +600,9 @@ void GEvolutionaryAlgorithm::fixAfterJobSubmission() {
 		[iteration](std::shared_ptr <GParameterSet> p) { p->setAssignedIteration(iteration); }
 	);
 
-	// Make sure that parents are at the beginning of the array.
-	sort(
+	// Make sure that parents are at the beginning of the array. The order of the parents
+	// must not change, as the first one is the best individual found so far.
+	std::stable_sort(
 		this->begin()
 		, this->end()
 		, [](std::shared_ptr<GParameterSet> x, std::shared_ptr<GParameterSet> y) -> bool {
diff --git a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
index 5ade01e..e246a5f 100644
--- a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
@@ -496,8 +496,9 @@ void GSimulatedAnnealing::fixAfterJobSubmission() {
 		[iteration](std::shared_ptr <GParameterSet> p) { p->setAssignedIteration(iteration); }
 	);
 
-	// Make sure that parents are at the beginning of the array.
-	sort(
+	// Make sure that parents are at the beginning of the array. The order of the parents
+	// must not change, as the first one is the best individual found so far.
+	std::stable_sort(
 		this->begin()
 		, this->end()
 		, [](std::shared_ptr<GParameterSet> x, std::shared_ptr<GParameterSet> y) -> bool {
-- 
2.43.0


From c6b9a4f10be86824b0974279f22f9db722ff8eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:13 +0000
Subject: [PATCH 078/107] fix: the personal best of a particle is to be
 replaced by better solutions, not by worse ones

---
 src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
index 6c0f73a..5e1867b 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
@@ -452,8 +452,8 @@ void GSwarmAlgorithm::updatePersonalBestIfBetter(
 
 	auto m = this->at(0)->getMaxMode(); // We assume that the maxMode is the same for all individuals
 	if(isBetter(
-		std::get<G_TRANSFORMED_FITNESS>(ind_ptr->getPersonalityTraits<GSwarmAlgorithm_PersonalityTraits>()->getPersonalBestQuality())
-		, ind_ptr->transformed_fitness(0)
+		ind_ptr->transformed_fitness(0)
+		, std::get<G_TRANSFORMED_FITNESS>(ind_ptr->getPersonalityTraits<GSwarmAlgorithm_PersonalityTraits>()->getPersonalBestQuality())
 		, m
 	)) {
 		ind_ptr->getPersonalityTraits<GSwarmAlgorithm_PersonalityTraits>()->registerPersonalBest(ind_ptr);
-- 
2.43.0


From f5af809a85bfd948ed5965f9f6a78671d3d608d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:18 +0000
Subject: [PATCH 079/107] fix: the velocities of a swarm must not be mapped to
 the value ranges of constrained parameters

---
 ...G_OptimizationAlgorithm_SwarmAlgorithm.hpp |  4 +-
 ...G_OptimizationAlgorithm_SwarmAlgorithm.cpp | 37 +++++--------------
 2 files changed, 12 insertions(+), 29 deletions(-)

diff --git a/include/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.hpp b/include/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.hpp
index 35116fe..44a4422 100644
--- a/include/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.hpp
+++ b/include/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.hpp
@@ -256,7 +256,7 @@ protected:
 		 , std::shared_ptr<GParameterSet>
 		 , std::shared_ptr<GParameterSet>
 		 , std::shared_ptr<GParameterSet>
-		 , std::shared_ptr<GParameterSet>
+		 , std::vector<double>&
 		 , std::tuple<double, double, double, double>
 	 );
 
@@ -275,7 +275,7 @@ protected:
 	 std::shared_ptr<GParameterSet> m_global_best_ptr; ///< The globally best individual
 
 	 std::vector<std::shared_ptr<GParameterSet>> m_neighborhood_bests_cnt = std::vector<std::shared_ptr<GParameterSet>>(m_n_neighborhoods); ///< The collection of best individuals from each neighborhood
-	 std::vector<std::shared_ptr<GParameterSet>> m_velocities_cnt = std::vector<std::shared_ptr<GParameterSet>>(); ///< Holds velocities, as calculated in the previous iteration
+	 std::vector<std::vector<double>> m_velocities_cnt = std::vector<std::vector<double>>(); ///< Holds velocities, as calculated in the previous iteration
 
 	 double m_c_personal = DEFAULTCPERSONAL; ///< A factor for multiplication of personal best distances
 	 double m_c_neighborhood = DEFAULTCNEIGHBORHOOD; ///< A factor for multiplication of neighborhood best distances
diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
index 5e1867b..85c96b8 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
@@ -231,7 +231,7 @@ void GSwarmAlgorithm::resetToOptimizationStart_() {
 	m_global_best_ptr.reset(); // The globally best individual
 
 	m_neighborhood_bests_cnt = std::vector<std::shared_ptr<GParameterSet>>(m_n_neighborhoods); // The collection of best individuals from each neighborhood
-	m_velocities_cnt = std::vector<std::shared_ptr<GParameterSet>>(); // Holds velocities, as calculated in the previous iteration
+	m_velocities_cnt = std::vector<std::vector<double>>(); // Holds velocities, as calculated in the previous iteration
 
 	m_dbl_lower_parameter_boundaries_cnt.clear(); // Holds lower boundaries of double parameters
 	m_dbl_upper_parameter_boundaries_cnt.clear(); // Holds upper boundaries of double parameters
@@ -588,7 +588,8 @@ void GSwarmAlgorithm::init() {
 	// Make sure the m_velocities_cnt vector is really empty
 	m_velocities_cnt.clear();
 
-	// Create copies of our individuals in the m_velocities_cnt vector.
+	// Create a velocity for each of our individuals. Note that velocities must not be stored in
+	// parameter objects, as these might transform the values to their allowed value range.
 	std::size_t pos = 0;
 	for(const auto& ind_ptr: *this) {
 #ifdef DEBUG
@@ -601,15 +602,9 @@ void GSwarmAlgorithm::init() {
 		}
 #endif /* DEBUG */
 
-		// Create a copy of the current individual. Note that, if you happen
-		// to have assigned anything else than a GParameterSet derivative to
-		// the swarm, then the following line will throw in DEBUG mode or return
-		// undefined results in RELEASE mode
-		std::shared_ptr<GParameterSet> p(ind_ptr->clone<GParameterSet>());
-
 		// Extract the parameter vector
 		std::vector<double> velVec;
-		p->streamline(velVec, activityMode::ACTIVEONLY);
+		ind_ptr->streamline(velVec, activityMode::ACTIVEONLY);
 
 #ifdef DEBUG
 		// Check that the number of parameters equals those in the velocity boundaries
@@ -631,12 +626,8 @@ void GSwarmAlgorithm::init() {
 				G_OptimizationAlgorithm_Base::m_uniform_real_distribution(m_gr, std::uniform_real_distribution<double>::param_type(-range,range));
 		}
 
-		// Load the array into the velocity object
-		p->assignValueVector<double>(velVec, activityMode::ACTIVEONLY);
-		p->mark_as_due_for_processing(); // Catch cases where a value is calculated for the velocity individual
-
 		// Add the initialized velocity to the array.
-		m_velocities_cnt.push_back(p);
+		m_velocities_cnt.push_back(velVec);
 
 		pos++;
 	}
@@ -655,8 +646,7 @@ void GSwarmAlgorithm::init() {
  * Does any necessary finalization work
  */
 void GSwarmAlgorithm::finalize() {
-	// Remove remaining velocity individuals. The std::shared_ptr<GParameterSet>s
-	// will take care of deleting the GParameterSet objects.
+	// Remove the velocities, they are no longer needed
 	m_velocities_cnt.clear();
 
 	// Last action
@@ -952,7 +942,7 @@ void GSwarmAlgorithm::updateIndividualPositions(
 	, std::shared_ptr <GParameterSet> ind
 	, std::shared_ptr <GParameterSet> neighborhood_best
 	, std::shared_ptr <GParameterSet> global_best
-	, std::shared_ptr <GParameterSet> velocity
+	, std::vector<double>& velocity
 	, std::tuple<double, double, double, double> constants
 ) {
 	// Extract the constants from the tuple
@@ -1001,13 +991,6 @@ void GSwarmAlgorithm::updateIndividualPositions(
 		);
 	}
 
-	if(not velocity) {
-		throw gemfony_exception(
-			g_error_streamer(DO_LOG,  time_and_place)
-				<< "In GSwarmAlgorithm::updateIndividualPositions():" << std::endl
-				<< "Found empty individual \"velocity\"" << std::endl
-		);
-	}
 
 #endif /* DEBUG */
 
@@ -1018,7 +1001,7 @@ void GSwarmAlgorithm::updateIndividualPositions(
 	personal_best->streamline(personalBestVec, activityMode::ACTIVEONLY);
 	neighborhood_best->streamline(nbhBestVec, activityMode::ACTIVEONLY);
 	global_best->streamline(glbBestVec, activityMode::ACTIVEONLY);
-	velocity->streamline(velVec, activityMode::ACTIVEONLY);
+	velVec = velocity;
 
 	// Subtract the individual vector from the personal, neighborhood and global bests
 	Gem::Common::subtractVec<double>(personalBestVec, indVec);
@@ -1069,8 +1052,8 @@ void GSwarmAlgorithm::updateIndividualPositions(
 		Gem::Common::addVec<double>(indVec, velVec); // attraction - walk towards best known individuals
 	}
 
-	// Update the velocity individual
-	velocity->assignValueVector<double>(velVec, activityMode::ACTIVEONLY);
+	// Update the velocity
+	velocity = velVec;
 
 	// Update the candidate solution
 	ind->assignValueVector<double>(indVec, activityMode::ACTIVEONLY);
-- 
2.43.0


From 32ad721a39b621fbbd6d7ddae77d3a075aa2292e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:17 +0000
Subject: [PATCH 080/107] fix: the gradient descent must check the new step
 sizes, not the old ones

---
 .../G_OptimizationAlgorithm_GradientDescent.cpp      | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp b/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp
index d02a748..5a2cd9d 100644
--- a/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp
@@ -104,12 +104,12 @@ void GGradientDescent::setNStartingPoints(std::size_t nStartingPoints) {
  * @param finiteStep The desired size of the adaption
  */
 void GGradientDescent::setFiniteStep(double finiteStep) {
-	// Check that finiteStep_ has an appropriate value
-	if (finiteStep_ <= 0. || finiteStep_ > 1000.) { // Specified in per mill of the allowed or preferred value range
+	// Check that finiteStep has an appropriate value
+	if (finiteStep <= 0. || finiteStep > 1000.) { // Specified in per mill of the allowed or preferred value range
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG,  time_and_place)
 				<< "In GGradientDescent::setFiniteStep(double): Error!" << std::endl
-				<< "Invalid values of finiteStep_: " << finiteStep_ << std::endl
+				<< "Invalid value of finiteStep: " << finiteStep << std::endl
 				<< "Must be in the range ]0.:1000.]" << std::endl
 		);
 	}
@@ -134,12 +134,12 @@ double GGradientDescent::getFiniteStep() const {
  * @param stepSize A multiplicative factor for the adaption process
  */
 void GGradientDescent::setStepSize(double stepSize) {
-	// Check that stepSize_ has an appropriate value
-	if (stepSize_ <= 0. || stepSize_ > 1000.) { // Specified in per mill of the allowed or preferred value range
+	// Check that stepSize has an appropriate value
+	if (stepSize <= 0. || stepSize > 1000.) { // Specified in per mill of the allowed or preferred value range
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG,  time_and_place)
 				<< "In GGradientDescent::setStepSize(double): Error!" << std::endl
-				<< "Invalid values of stepSize_: " << stepSize_ << std::endl
+				<< "Invalid value of stepSize: " << stepSize << std::endl
 				<< "Must be in the range ]0.:1000.]" << std::endl
 		);
 	}
-- 
2.43.0


From 2c667b79f32ed5c00aa01ce777aa9029d3c71948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:17 +0000
Subject: [PATCH 081/107] fix: a grid scan must visit each value of integer and
 boolean parameters

---
 include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
index 1f774fe..569773b 100644
--- a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
+++ b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
@@ -203,6 +203,9 @@ public:
                 , m_lower
                 , m_upper
             );
+
+            // The number of items may differ from nSteps, e.g. for boolean and integer types
+            m_nSteps = this->m_data_cnt.size();
         }
     }
 
-- 
2.43.0


From e881aea16b73a51a2761d177c2a48c2cf5331349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:17 +0000
Subject: [PATCH 082/107] fix: a parameter scan must evaluate exactly the
 requested number of random points

---
 .../G_OptimizationAlgorithm_ParameterScan.cpp       | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp b/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
index 0620faa..fdda70b 100644
--- a/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
@@ -738,10 +738,8 @@ void GParameterScan::randomShuffle() {
 		// We were successful
 		m_cycleLogicHalt = false;
 
-		//------------------------------------------------------------------------
-		// We do not want to exceed the boundaries of the population -- stop
-		// if we have reached the end of the population
-		if (++indPos >= this->getDefaultPopulationSize()) break;
+		// Go to the next individual
+		++indPos;
 
 		//------------------------------------------------------------------------
 		// Make sure we terminate when the desired overall number of random scans has
@@ -754,11 +752,16 @@ void GParameterScan::randomShuffle() {
 			this->resetParameterObjects();
 
 			// Resize the population, so we only have modified individuals
-			this->resize(indPos + 1);
+			this->resize(indPos);
 
 			// Terminate the loop
 			break;
 		}
+
+		//------------------------------------------------------------------------
+		// We do not want to exceed the boundaries of the population -- stop
+		// if we have reached the end of the population
+		if (indPos >= this->getDefaultPopulationSize()) break;
 	}
 }
 
-- 
2.43.0


From ba38822357b13191646fb826f9fefcb5a422ed5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:17 +0000
Subject: [PATCH 083/107] fix: a parameter scan must keep the requested number
 of random points for the next run

---
 src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp b/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
index fdda70b..ce087ae 100644
--- a/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
@@ -789,8 +789,6 @@ void GParameterScan::resetParameterObjects() {
 	for (d_it = m_d_cnt.begin(); d_it != m_d_cnt.end(); ++d_it) {
 		(*d_it)->resetPosition();
 	}
-
-	m_simpleScanItems = std::size_t(0);
 }
 
 /******************************************************************************/
-- 
2.43.0


From 95deec4910c30b11ae9d97b0e44c8b99f17cc47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:17 +0000
Subject: [PATCH 084/107] fix: the checks of the minimum and maximum number of
 iterations must look at the new values

---
 src/geneva/G_OptimizationAlgorithm_Base.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_Base.cpp b/src/geneva/G_OptimizationAlgorithm_Base.cpp
index 56bb243..7335884 100644
--- a/src/geneva/G_OptimizationAlgorithm_Base.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_Base.cpp
@@ -844,11 +844,11 @@ std::size_t G_OptimizationAlgorithm_Base::getPopulationSize() const {
 void G_OptimizationAlgorithm_Base::setMaxIteration(std::uint32_t maxIteration) {
 	// Check that the maximum number of iterations is > the minimum number
 	// The check is only valid if a maximum number of iterations has been set (i.e. is != 0)
-	if(m_maxIteration > 0 && m_maxIteration <= m_minIteration) {
+	if(maxIteration > 0 && maxIteration <= m_minIteration) {
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG,  time_and_place)
 				<< "In G_OptimizationAlgorithm_Base<>::setMaxIteration(): Error!" << std::endl
-				<< "Maximum number of iterations " << 	m_maxIteration << " is <= the minimum number " << m_minIteration << std::endl
+				<< "Maximum number of iterations " << 	maxIteration << " is <= the minimum number " << m_minIteration << std::endl
 		);
 	}
 
@@ -877,11 +877,11 @@ std::uint32_t G_OptimizationAlgorithm_Base::getMaxIteration() const {
 void G_OptimizationAlgorithm_Base::setMinIteration(std::uint32_t minIteration) {
 	// Check that the maximum number of iterations is > the minimum number
 	// The check is only valid if a maximum number of iterations has been set (i.e. is != 0)
-	if(m_maxIteration > 0 && m_maxIteration <= m_minIteration) {
+	if(m_maxIteration > 0 && m_maxIteration <= minIteration) {
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG,  time_and_place)
 				<< "In G_OptimizationAlgorithm_Base<>::setMinIteration(): Error!" << std::endl
-				<< "Maximum number of iterations " << 	m_maxIteration << " is <= the minimum number " << m_minIteration << std::endl
+				<< "Maximum number of iterations " << 	m_maxIteration << " is <= the minimum number " << minIteration << std::endl
 		);
 	}
 
-- 
2.43.0


From 1314aa455bf6fed5374e02176871ff6cba3744d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:11 +0000
Subject: [PATCH 085/107] fix: problems while an object is written to a file
 must be reported

---
 include/common/GCommonInterfaceT.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/common/GCommonInterfaceT.hpp b/include/common/GCommonInterfaceT.hpp
index d3b5002..1c67909 100644
--- a/include/common/GCommonInterfaceT.hpp
+++ b/include/common/GCommonInterfaceT.hpp
@@ -299,12 +299,28 @@ public:
             );
         }
 
+        // Serialize to memory first, as archives write their last data in their
+        // destructors, where problems with the file cannot be reported
+        std::ostringstream oarchive_stream;
         toStream(
-            ofstr
+            oarchive_stream
             , serMod
         );
+        ofstr << oarchive_stream.str();
         ofstr.close();
 
+        // Make sure we notice when not all data could be written
+        if (not ofstr) {
+            throw gemfony_exception(
+                g_error_streamer(
+                    DO_LOG
+                    , time_and_place
+                )
+                    << "In GCommonInterfaceT::toFile():" << std::endl
+                    << "Problems writing to file " << p.string() << std::endl
+            );
+        }
+
 #ifdef DEBUG
         if (not std::filesystem::exists(std::filesystem::path(p))) {
             throw gemfony_exception(
-- 
2.43.0


From 1c216cce4a2b49d605f7bbd3c487123d0ef17085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:11 +0000
Subject: [PATCH 086/107] fix: incomplete XML data must be reported instead of
 terminating the program

---
 include/common/GCommonInterfaceT.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/common/GCommonInterfaceT.hpp b/include/common/GCommonInterfaceT.hpp
index 1c67909..d7242d1 100644
--- a/include/common/GCommonInterfaceT.hpp
+++ b/include/common/GCommonInterfaceT.hpp
@@ -189,8 +189,23 @@ public:
                 break;
 
             case Gem::Common::serializationMode::XML: {
-                boost::archive::xml_iarchive ia(istr);
-                istr.imbue(std::locale(istr.getloc(), new boost::math::nonfinite_num_get<char>));
+                // The closing tag is read by the destructor of the archive, which has
+                // no means of reporting that it is missing
+                std::string content{std::istreambuf_iterator<char>(istr), std::istreambuf_iterator<char>()};
+                if (content.find("</boost_serialization>") == std::string::npos) {
+                    throw gemfony_exception(
+                        g_error_streamer(
+                            DO_LOG
+                            , time_and_place
+                        )
+                            << "In GCommonInterfaceT<g_class_type>::fromStream(): Error!" << std::endl
+                            << "XML data is incomplete" << std::endl
+                    );
+                }
+
+                std::istringstream content_stream(content);
+                boost::archive::xml_iarchive ia(content_stream);
+                content_stream.imbue(std::locale(content_stream.getloc(), new boost::math::nonfinite_num_get<char>));
                 ia >> boost::serialization::make_nvp(
                     "classhierarchyFromT"
                     , local
-- 
2.43.0


From 52e486117d0ecb2e2f00b064cac3bfae0cf7a08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:11 +0000
Subject: [PATCH 087/107] fix: an executor may be registered after a checkpoint
 was loaded

---
 src/geneva/G_OptimizationAlgorithm_Base.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geneva/G_OptimizationAlgorithm_Base.cpp b/src/geneva/G_OptimizationAlgorithm_Base.cpp
index 7335884..8c6c28b 100644
--- a/src/geneva/G_OptimizationAlgorithm_Base.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_Base.cpp
@@ -296,6 +296,10 @@ void G_OptimizationAlgorithm_Base::loadCheckpoint(std::filesystem::path const &
 	}
 
 	this->fromFile(cpFile, this->getCheckpointSerializationMode());
+
+	// Checkpoints are written in the middle of an optimization run, but none is
+	// running in this object. This needs to be known e.g. in order to register an executor
+	m_halted = true;
 }
 
 /******************************************************************************/
-- 
2.43.0


From 355562711f8b879f9bed524d8195ef4dfadbedb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:11 +0000
Subject: [PATCH 088/107] fix: a checkpoint that was just written must not be
 removed as the previous one

---
 src/geneva/G_OptimizationAlgorithm_Base.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_Base.cpp b/src/geneva/G_OptimizationAlgorithm_Base.cpp
index 8c6c28b..11c4af2 100644
--- a/src/geneva/G_OptimizationAlgorithm_Base.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_Base.cpp
@@ -265,7 +265,8 @@ void G_OptimizationAlgorithm_Base::checkpoint(bool is_better) const {
 		saveCheckpoint(output_file);
 
 		// Remove the last checkoint file if requested by the user
-		if(m_cp_remove && m_cp_last != "empty") {
+		// (unless it has just been overwritten)
+		if(m_cp_remove && m_cp_last != "empty" && m_cp_last != output_file.string()) {
 			if(std::filesystem::exists(std::filesystem::path(m_cp_last))) {
 				std::filesystem::remove(std::filesystem::path(m_cp_last));
 			}
-- 
2.43.0


From fe28bc026e664237fa95924c55b6656b579e0642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:12 +0000
Subject: [PATCH 089/107] fix: simulated annealing must remember the best
 parents evaluated in its first iteration

---
 ...timizationAlgorithm_SimulatedAnnealing.hpp |  5 ++++
 ...timizationAlgorithm_SimulatedAnnealing.cpp | 28 +++++++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/include/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.hpp b/include/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.hpp
index 68fa5cf..e64fcd7 100644
--- a/include/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.hpp
+++ b/include/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.hpp
@@ -180,6 +180,10 @@ private:
     G_API_GENEVA void adaptChildren_() override;
     /** @brief Choose new parents, based on the SA selection scheme. */
     G_API_GENEVA void selectBest_() override;
+    /** @brief Adds the individuals of this iteration to a priority queue */
+    G_API_GENEVA void updateGlobalBestsPQ_(
+        GParameterSetFixedSizePriorityQueue &bestIndividuals
+    ) override;
 
     /** @brief Retrieves the evaluation range in a given iteration and sorting scheme */
     G_API_GENEVA std::tuple<std::size_t, std::size_t> getEvaluationRange_() const override;
@@ -206,6 +210,7 @@ private:
 
     std::uint16_t m_n_threads = Gem::Common::DEFAULTNHARDWARETHREADS; ///< The number of threads
 
+    std::vector<std::shared_ptr<GParameterSet>> m_initial_parents_cnt; ///< Temporarily holds parents evaluated in the first iteration
     std::shared_ptr<Gem::Common::GThreadPool> m_tp_ptr; ///< Temporarily holds a thread pool
 };
 
diff --git a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
index e246a5f..73871a9 100644
--- a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
@@ -569,6 +569,15 @@ void GSimulatedAnnealing::fixAfterJobSubmission() {
   * Choose new parents, based on the SA selection scheme.
   */
 void GSimulatedAnnealing::selectBest_() {
+	// The parents are evaluated in the first iteration and may then be replaced by worse
+	// children before they were recorded as best individuals, so we need to remember them
+	m_initial_parents_cnt.clear();
+	if(this->inFirstIteration()) {
+		for(std::size_t np = 0; np < this->m_n_parents; np++) {
+			m_initial_parents_cnt.push_back(this->at(np)->clone<GParameterSet>());
+		}
+	}
+
 	// Sort according to the "Simulated Annealing" scheme
 	sortSAMode();
 
@@ -599,6 +608,25 @@ void GSimulatedAnnealing::selectBest_() {
 	// Everything should be back to normal ...
 }
 
+/******************************************************************************/
+/**
+ * Adds the individuals of this iteration to a priority queue, including parents
+ * which were replaced in the first iteration.
+ *
+ * @param bestIndividuals A priority queue with the best individuals found so far
+ */
+void GSimulatedAnnealing::updateGlobalBestsPQ_(
+	GParameterSetFixedSizePriorityQueue & bestIndividuals
+) {
+	const bool CLONE = true;
+	const bool DONOTREPLACE = false;
+
+	G_OptimizationAlgorithm_Base::updateGlobalBestsPQ_(bestIndividuals);
+
+	bestIndividuals.add(m_initial_parents_cnt, CLONE, DONOTREPLACE);
+	m_initial_parents_cnt.clear();
+}
+
 /******************************************************************************/
 /**
   * Retrieves the evaluation range in a given iteration and sorting scheme. Depending on the
-- 
2.43.0


From de49fb795c722bf4e031cdb17e3fa7d84126587d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:11 +0000
Subject: [PATCH 090/107] fix: Go2 must start counting iterations at the offset
 passed to optimize()

---
 src/geneva/Go2.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/geneva/Go2.cpp b/src/geneva/Go2.cpp
index c0c0b15..2f7ef47 100644
--- a/src/geneva/Go2.cpp
+++ b/src/geneva/Go2.cpp
@@ -431,7 +431,7 @@ void Go2::registerContentCreator(
  *
  * @param offset An offset at which the first algorithm should start
  */
-Go2 const * const Go2::optimize_(std::uint32_t) {
+Go2 const * const Go2::optimize_(std::uint32_t offset) {
 	// Check that algorithms have indeed been registered. If not, try to add a default algorithm
 	if (m_algorithms_cnt.empty()) {
 		if (not m_default_algorithm) {
@@ -497,8 +497,8 @@ Go2 const * const Go2::optimize_(std::uint32_t) {
 			}
 		}
 
-		// We start with a predefined iteration offset
-		m_iterations_consumed = m_offset;
+		// We start with the iteration offset passed to this function, or a predefined iteration offset
+		m_iterations_consumed = (offset > 0) ? offset : m_offset;
 	}
 
 	// Loop over all algorithms
-- 
2.43.0


From 46abae67cd1aa7db6405b7c9b37ac56425740abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:52 +0000
Subject: [PATCH 091/107] fix: the configuration file of a parameter scan must
 be able to select a grid

The option scanRandomly was applied after the scan parameters had been created
from parameterOptions, so that these always performed a random scan.
---
 .../G_OptimizationAlgorithm_ParameterScan.cpp    | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp b/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
index ce087ae..e8c0267 100644
--- a/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
@@ -977,13 +977,8 @@ void GParameterScan::addConfigurationOptions_(
 	)
 		<< "The total size of the population";
 
-	gpb.registerFileParameter<std::string>(
-		"parameterOptions"
-		, std::string("d(0, -10., 10., 100), d(1, -10., 10., 100)")
-		, [this](std::string parSpecs) { this->setParameterSpecs(parSpecs); }
-	)
-		<< "Specification of the parameters to be used in the parameter scan" << std::endl;
-
+	// Needs to come before parameterOptions, as the scan parameters created
+	// from the specification need to know the type of the scan
 	gpb.registerFileParameter<bool>(
 		"scanRandomly" // The name of the variable
 		, true // The default value
@@ -992,6 +987,13 @@ void GParameterScan::addConfigurationOptions_(
 		<< "Indicates whether scans of individual variables should be done randomly" << std::endl
 		<< "(1) or on a grid (0)";
 
+	gpb.registerFileParameter<std::string>(
+		"parameterOptions"
+		, std::string("d(0, -10., 10., 100), d(1, -10., 10., 100)")
+		, [this](std::string parSpecs) { this->setParameterSpecs(parSpecs); }
+	)
+		<< "Specification of the parameters to be used in the parameter scan" << std::endl;
+
 	// Override the default value of maxStallIteration, as the parent
 	// default does not make sense for us (we do not need stall iterations)
 	gpb.resetFileParameterDefaults(
-- 
2.43.0


From 07d637136004ec6cc159bd721382f36c201392d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:01 +0000
Subject: [PATCH 092/107] fix: drawing a histogram without entries must not
 dereference the end of its data

---
 include/common/GPlotDesigner.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/common/GPlotDesigner.hpp b/include/common/GPlotDesigner.hpp
index f237ac1..672f054 100644
--- a/include/common/GPlotDesigner.hpp
+++ b/include/common/GPlotDesigner.hpp
@@ -1687,6 +1687,11 @@ public:
 	  * Retrieves the minimum and maximum values in m_data
 	  */
     std::tuple<x_type, x_type> getMinMaxElements() const {
+        // There are no extreme values without data
+        if(m_data.empty()) {
+            return std::make_tuple(x_type(0), x_type(0));
+        }
+
         auto minmax = std::minmax_element(
             m_data.begin()
             , m_data.end());
@@ -2235,6 +2240,11 @@ public:
 		* Retrieves the minimum and maximum values in m_data in x- and y-direction
 		*/
     std::tuple<x_type, x_type, y_type, y_type> getMinMaxElements() const {
+        // There are no extreme values without data
+        if(m_data.empty()) {
+            return std::make_tuple(x_type(0), x_type(0), y_type(0), y_type(0));
+        }
+
         auto minmax_x = std::minmax_element(
             m_data.begin()
             , m_data.end()
-- 
2.43.0


From 26cde02df3f12a84602e8d66ab5c416e431da0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:12 +0000
Subject: [PATCH 093/107] fix: four-dimensional plots and projections must cope
 with less than two points and with equal values

---
 include/common/GCommonMathHelperFunctionsT.hpp | 8 ++++----
 src/common/GPlotDesigner.cpp                   | 7 ++++++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/common/GCommonMathHelperFunctionsT.hpp b/include/common/GCommonMathHelperFunctionsT.hpp
index 5424221..7879404 100644
--- a/include/common/GCommonMathHelperFunctionsT.hpp
+++ b/include/common/GCommonMathHelperFunctionsT.hpp
@@ -372,7 +372,7 @@ int_type checkValueRange(
 template<typename x_type_undet>
 auto getMinMax(const std::vector<x_type_undet> &extDat) {
 	// Do some error checking
-	if (extDat.size() < (std::size_t) 2) {
+	if (extDat.empty()) {
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG, time_and_place)
 				<< "In GBasePlotter::getMinMax(1D): Error!" << std::endl
@@ -402,7 +402,7 @@ auto getMinMax(const std::vector<x_type_undet> &extDat) {
 template<typename x_type_undet, typename y_type_undet>
 auto getMinMax(const std::vector<std::tuple<x_type_undet, y_type_undet>> &extDat) {
 	// Do some error checking
-	if (extDat.size() < (std::size_t) 2) {
+	if (extDat.empty()) {
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG, time_and_place)
 				<< "In GBasePlotter::getMinMax(2D): Error!" << std::endl
@@ -435,7 +435,7 @@ auto getMinMax(const std::vector<std::tuple<x_type_undet, y_type_undet>> &extDat
 template<typename x_type_undet, typename y_type_undet, typename z_type_undet>
 auto getMinMax(const std::vector<std::tuple<x_type_undet, y_type_undet, z_type_undet>> &extDat) {
 	// Do some error checking
-	if (extDat.size() < (std::size_t) 2) {
+	if (extDat.empty()) {
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG, time_and_place)
 				<< "In GBasePlotter::getMinMax(3D): Error!" << std::endl
@@ -471,7 +471,7 @@ auto getMinMax(const std::vector<std::tuple<x_type_undet, y_type_undet, z_type_u
 template<typename x_type_undet, typename y_type_undet, typename z_type_undet, typename w_type_undet>
 auto getMinMax(const std::vector<std::tuple<x_type_undet, y_type_undet, z_type_undet, w_type_undet>> &extDat) {
 	// Do some error checking
-	if (extDat.size() < (std::size_t) 2) {
+	if (extDat.empty()) {
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG, time_and_place)
 				<< "In GBasePlotter::getMinMax(3D): Error!" << std::endl
diff --git a/src/common/GPlotDesigner.cpp b/src/common/GPlotDesigner.cpp
index 8848bad..dc93044 100644
--- a/src/common/GPlotDesigner.cpp
+++ b/src/common/GPlotDesigner.cpp
@@ -1557,6 +1557,11 @@ std::string GGraph4D::footerData_(
 
 	std::ostringstream footer_data;
 
+	// There is nothing to be drawn and no range without data
+	if (localData.empty()) {
+		return footer_data.str();
+	}
+
 	// Find out about the minimum and maximum values of the data vector
 	std::tuple<double, double, double, double, double, double, double, double> minMax = getMinMax(
 		localData);
@@ -1581,7 +1586,7 @@ std::string GGraph4D::footerData_(
 	double wMax = std::get<7>(minMax);
 
 	// Fill data from the tuples into the arrays
-	double wRange = wMax - wMin;
+	double wRange = (wMax > wMin) ? (wMax - wMin) : 1.; // Do not divide by 0, if all values are equal
 	std::size_t pos = 0;
 	std::vector<std::tuple<double, double, double, double>>::const_iterator it;
 	for (it = localData.begin(); it != localData.end(); ++it) {
-- 
2.43.0


From 2780788af409ce780ac7e20b95e91871b4c9d8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:42 +0000
Subject: [PATCH 094/107] fix: the drawing options of a plotted function must
 be quoted

---
 src/common/GPlotDesigner.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/GPlotDesigner.cpp b/src/common/GPlotDesigner.cpp
index dc93044..14ba73d 100644
--- a/src/common/GPlotDesigner.cpp
+++ b/src/common/GPlotDesigner.cpp
@@ -2791,7 +2791,7 @@ std::string GFunctionPlotter1D::footerData_(
 	std::string dA = this->drawingArguments(isSecondary);
 
 	footer_data
-		<< indent << functionName << "->Draw(" << dA << ");" << (comment != "" ? comment : "") << std::endl
+		<< indent << functionName << "->Draw(\"" << dA << "\");" << (comment != "" ? comment : "") << std::endl
 		<< std::endl;
 
 	return footer_data.str();
@@ -3039,7 +3039,7 @@ std::string GFunctionPlotter2D::footerData_(
 	std::string dA = this->drawingArguments(isSecondary);
 
 	footer_data
-		<< indent << functionName << "->Draw(" << dA << ");" << (comment != "" ? comment : "") << std::endl
+		<< indent << functionName << "->Draw(\"" << dA << "\");" << (comment != "" ? comment : "") << std::endl
 		<< std::endl;
 
 	return footer_data.str();
-- 
2.43.0


From 41239d2e5b2746b3b024c61bf316b48f7ee8d391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:35 +0000
Subject: [PATCH 095/107] fix: several four-dimensional plots in one file must
 not use the same name for their frames

---
 src/common/GPlotDesigner.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/common/GPlotDesigner.cpp b/src/common/GPlotDesigner.cpp
index 14ba73d..23facc0 100644
--- a/src/common/GPlotDesigner.cpp
+++ b/src/common/GPlotDesigner.cpp
@@ -1566,21 +1566,24 @@ std::string GGraph4D::footerData_(
 	std::tuple<double, double, double, double, double, double, double, double> minMax = getMinMax(
 		localData);
 
+	// More than one plot of this type may be part of the same file
+	std::string frameName = std::string("fr") + baseName;
+
 	// Set up TView object for our 3D data, spanning the minimum and maximum values
 	footer_data
-		<< indent << "TH3F *fr = new TH3F(\"fr\",\"fr\","
+		<< indent << "TH3F *" << frameName << " = new TH3F(\"" << frameName << "\",\"" << frameName << "\","
 		<< "10, " << std::get<0>(minMax) << ", " << std::get<1>(minMax) << ", "
 		<< "10, " << std::get<2>(minMax) << ", " << std::get<3>(minMax) << ", "
 		<< "10, " << std::get<4>(minMax) << ", " << std::get<5>(minMax) << ");" << std::endl
-		<< indent << "fr->SetTitle(\" \");" << std::endl
-		<< indent << "fr->GetXaxis()->SetTitle(\"" << xAxisLabel() << "\");" << std::endl
-		<< indent << "fr->GetXaxis()->SetTitleOffset(1.6);" << std::endl
-		<< indent << "fr->GetYaxis()->SetTitle(\"" << yAxisLabel() << "\");" << std::endl
-		<< indent << "fr->GetYaxis()->SetTitleOffset(1.6);" << std::endl
-		<< indent << "fr->GetZaxis()->SetTitle(\"" << zAxisLabel() << "\");" << std::endl
-		<< indent << "fr->GetZaxis()->SetTitleOffset(1.6);" << std::endl
+		<< indent << frameName << "->SetTitle(\" \");" << std::endl
+		<< indent << frameName << "->GetXaxis()->SetTitle(\"" << xAxisLabel() << "\");" << std::endl
+		<< indent << frameName << "->GetXaxis()->SetTitleOffset(1.6);" << std::endl
+		<< indent << frameName << "->GetYaxis()->SetTitle(\"" << yAxisLabel() << "\");" << std::endl
+		<< indent << frameName << "->GetYaxis()->SetTitleOffset(1.6);" << std::endl
+		<< indent << frameName << "->GetZaxis()->SetTitle(\"" << zAxisLabel() << "\");" << std::endl
+		<< indent << frameName << "->GetZaxis()->SetTitleOffset(1.6);" << std::endl
 		<< std::endl
-		<< indent << "fr->Draw();" << std::endl;
+		<< indent << frameName << "->Draw();" << std::endl;
 
 	double wMin = std::get<6>(minMax);
 	double wMax = std::get<7>(minMax);
-- 
2.43.0


From 96eccbd3df142428de021cddf25c782eb910d723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:10 +0000
Subject: [PATCH 096/107] fix: the fitness monitor must accept that there are
 more or less best individuals in an iteration than in the entire run

---
 src/geneva/GPluggableOptimizationMonitors.cpp | 22 ++++++++-----------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/geneva/GPluggableOptimizationMonitors.cpp b/src/geneva/GPluggableOptimizationMonitors.cpp
index ee3f8dc..29a17e6 100644
--- a/src/geneva/GPluggableOptimizationMonitors.cpp
+++ b/src/geneva/GPluggableOptimizationMonitors.cpp
@@ -353,28 +353,24 @@ void GFitnessMonitor::informationFunction_(
 			// Retrieve the current iteration in the population
 			std::uint32_t iteration = goa->getIteration();
 
-			// We expect both sizes to be identical
-			if(global_bests.size() != iter_bests.size()) {
-				throw gemfony_exception(
-					g_error_streamer(DO_LOG,  time_and_place)
-						<< "In GFitnessMonitor::informationFunction_(): Error!" << std::endl
-						<< "global_bests.size() = " << global_bests.size() << " != iter_bests.size() = " << iter_bests.size() << std::endl
-				);
-			}
+			// The number of best individuals of the run is limited by the algorithm, the iteration
+			// may yield less or more of them. We can only monitor what is available in both lists.
+			std::size_t nBests = std::min(global_bests.size(), iter_bests.size());
+			if(0 == nBests) return;
 
 			//------------------------------------------------------------------------------
 			// Setup of local vectors
 
 			if(not m_infoInitRun) {
 				// Reset the number of monitored individuals to a suitable value, if necessary.
-				if(m_nMonitorInds > global_bests.size()) {
+				if(m_nMonitorInds > nBests) {
 					glogger
 						<< "In GFitnessMonitor::informationFunction_(): Warning!" << std::endl
 						<< "Requested number of individuals to be monitored in iteration " << iteration << " is larger" << std::endl
-						<< "than the number of best individuals " << m_nMonitorInds << " / " << global_bests.size() << std::endl
+						<< "than the number of best individuals " << m_nMonitorInds << " / " << nBests << std::endl
 						<< GWARNING;
 
-					m_nMonitorInds = global_bests.size();
+					m_nMonitorInds = nBests;
 				}
 
 				// Set up the plotters
@@ -406,11 +402,11 @@ void GFitnessMonitor::informationFunction_(
 				// iteration, e.g. when dealing with pareto optimization in EA. In this case we reduce the
 				// number of m_nMonitorInds to 1, which is the only safe option. Recorded data of other
 				// individuals will then be lost -- the program will warn about this.
-				if(m_nMonitorInds > global_bests.size()) {
+				if(m_nMonitorInds > nBests) {
 					glogger
 						<< "In GFitnessMonitor::informationFunction_(): Warning!" << std::endl
 						<< "Requested number of individuals to be monitored in iteration " << iteration << " is larger" << std::endl
-						<< "than the number of best individuals " << m_nMonitorInds << " / " << global_bests.size() << std::endl
+						<< "than the number of best individuals " << m_nMonitorInds << " / " << nBests << std::endl
 						<< "This seems to be a result of a varying number of best individuals." << std::endl
 						<< "We will now reduce the number of monitored individuals to 1 for the" << std::endl
 						<< "rest of the optimization run. Recorded information for other individuals" << std::endl
-- 
2.43.0


From ec8752b1f48f5b943a8104cf0ab8e13967bfc993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:10 +0000
Subject: [PATCH 097/107] fix: the fitness monitor must write its result file

---
 src/geneva/GPluggableOptimizationMonitors.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/geneva/GPluggableOptimizationMonitors.cpp b/src/geneva/GPluggableOptimizationMonitors.cpp
index 29a17e6..c7a90f7 100644
--- a/src/geneva/GPluggableOptimizationMonitors.cpp
+++ b/src/geneva/GPluggableOptimizationMonitors.cpp
@@ -442,7 +442,19 @@ void GFitnessMonitor::informationFunction_(
 		}
 			break;
 
-		case Gem::Geneva::infoMode::INFOEND: { /* nothing */ }
+		case Gem::Geneva::infoMode::INFOEND: {
+			if(not m_globalFitnessGraphVec.empty()) {
+				// Write out what was recorded so far. Graphs for individuals are plotted in a row
+				Gem::Common::GPlotDesigner gpd("Fitness information", m_globalFitnessGraphVec.size(), 1);
+				gpd.setCanvasDimensions(m_xDim, m_yDim);
+
+				for(auto const & graph_ptr: m_globalFitnessGraphVec) {
+					gpd.registerPlotter(graph_ptr);
+				}
+
+				gpd.writeToFile(m_resultFile);
+			}
+		}
 			break;
 	}
 }
-- 
2.43.0


From 67d24db8039dbb8781280d0d9af3bd2a74faad12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:10 +0000
Subject: [PATCH 098/107] fix: a requested number of 0 monitored individuals
 must select the default

---
 src/geneva/GPluggableOptimizationMonitors.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/geneva/GPluggableOptimizationMonitors.cpp b/src/geneva/GPluggableOptimizationMonitors.cpp
index c7a90f7..4b8aa43 100644
--- a/src/geneva/GPluggableOptimizationMonitors.cpp
+++ b/src/geneva/GPluggableOptimizationMonitors.cpp
@@ -313,11 +313,11 @@ std::uint32_t GFitnessMonitor::getYDim() const {
 void GFitnessMonitor::setNMonitorIndividuals(const std::size_t &nMonitorInds) {
 	// Determine a suitable number of monitored individuals, if it hasn't already
 	// been set externally.
-	if(m_nMonitorInds == 0) {
+	if(nMonitorInds == 0) {
 		m_nMonitorInds = std::size_t(DEFNMONITORINDS);
+	} else {
+		m_nMonitorInds = nMonitorInds;
 	}
-
-	m_nMonitorInds = nMonitorInds;
 }
 
 /******************************************************************************/
-- 
2.43.0


From 3f419528bcc0b3ab705a86f82bdf91632e3b9ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:32 +0000
Subject: [PATCH 099/107] fix: the log of all solutions must contain its header
 exactly once

---
 include/geneva/GPluggableOptimizationMonitors.hpp |  1 +
 src/geneva/GPluggableOptimizationMonitors.cpp     | 11 ++++++-----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/geneva/GPluggableOptimizationMonitors.hpp b/include/geneva/GPluggableOptimizationMonitors.hpp
index 9daf7fc..a991f40 100644
--- a/include/geneva/GPluggableOptimizationMonitors.hpp
+++ b/include/geneva/GPluggableOptimizationMonitors.hpp
@@ -1222,6 +1222,7 @@ private:
 	 bool m_useRawFitness = true; ///< Indicates whether true- or transformed fitness should be output
 	 bool m_showValidity = true; ///< Indicates whether the validity of a solution should be shown
 	 bool m_printInitial = false; ///< Indicates whether the initial population should be printed
+	 bool m_headerWritten = false; ///< Indicates whether names and types were already written to the current file (temporary, not serialized)
 	 bool m_showIterationBoundaries = false; ///< Indicates whether a comment indicating the end of an iteration should be printed
 };
 
diff --git a/src/geneva/GPluggableOptimizationMonitors.cpp b/src/geneva/GPluggableOptimizationMonitors.cpp
index 4b8aa43..2c47f6f 100644
--- a/src/geneva/GPluggableOptimizationMonitors.cpp
+++ b/src/geneva/GPluggableOptimizationMonitors.cpp
@@ -1029,6 +1029,9 @@ void GAllSolutionFileLogger::informationFunction_(
 				std::filesystem::rename(m_fileName, newFileName);
 			}
 
+			// A new file needs a new header
+			m_headerWritten = false;
+
 			if(m_printInitial) {
 				this->printPopulation("Initial population", goa);
 			}
@@ -1106,11 +1109,9 @@ void GAllSolutionFileLogger::printPopulation(
 		// Note that isGoodEnough may throw if loop acts on a "dirty" individual
 		if(not m_boundariesActive || ind->isGoodEnough(m_boundaries)) {
 			// Append the data to the external file
-			if(0 == pos && goa->inFirstIteration()) { // Only output name and type in the very first line (if at all)
-				data << ind->toCSV(m_withNameAndType, m_withCommas, m_useRawFitness, m_showValidity);
-			} else {
-				data << ind->toCSV(false /* withNameAndType */, m_withCommas, m_useRawFitness, m_showValidity);
-			}
+			// Only output name and type before the very first solution of the file (if at all)
+			data << ind->toCSV(m_withNameAndType && not m_headerWritten, m_withCommas, m_useRawFitness, m_showValidity);
+			m_headerWritten = true;
 		}
 	}
 
-- 
2.43.0


From f7fd3e95f69316bb3c6e5f0cde12c683489a5e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:32 +0000
Subject: [PATCH 100/107] fix: the log of iteration results must show the
 fitness that was asked for

---
 src/geneva/GPluggableOptimizationMonitors.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geneva/GPluggableOptimizationMonitors.cpp b/src/geneva/GPluggableOptimizationMonitors.cpp
index 2c47f6f..b0f7eab 100644
--- a/src/geneva/GPluggableOptimizationMonitors.cpp
+++ b/src/geneva/GPluggableOptimizationMonitors.cpp
@@ -1320,7 +1320,7 @@ void GIterationResultsFileLogger::informationFunction_(
 			std::size_t nIndividuals = goa->size();
 			for(std::size_t pos=0; pos<nIndividuals; pos++) {
 				std::shared_ptr<GParameterSet> ind = goa->template individual_cast<GParameterSet>(pos);
-				fitness_cnt = goa->at(pos)->raw_fitness_vec();
+				fitness_cnt = m_useRawFitness ? goa->at(pos)->raw_fitness_vec() : goa->at(pos)->transformed_fitness_vec();
 
 				std::size_t nFitnessCriteria = goa->at(0)->getNStoredResults();
 				for(std::size_t i=0; i<nFitnessCriteria; i++) {
-- 
2.43.0


From 0f094c17a94b6348519cd4f86e2debbe064e5c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:32 +0000
Subject: [PATCH 101/107] fix: adaptor properties must be recorded once for
 every individual

---
 include/geneva/GPluggableOptimizationMonitors.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/geneva/GPluggableOptimizationMonitors.hpp b/include/geneva/GPluggableOptimizationMonitors.hpp
index a991f40..59098d3 100644
--- a/include/geneva/GPluggableOptimizationMonitors.hpp
+++ b/include/geneva/GPluggableOptimizationMonitors.hpp
@@ -1870,6 +1870,7 @@ private:
 						std::shared_ptr<GParameterSet> ind = goa->template individual_cast<GParameterSet>(pos);
 
 						// Retrieve the adaptor data (e.g. the sigma of a GDoubleGaussAdaptor
+						data.clear();
 						ind->queryAdaptor(m_adaptorName, m_property, data);
 
 						// Attach the data to m_adaptorPropertyStore
-- 
2.43.0


From 1616738f7dbd65264fa5bde966b378736a773f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:32 +0000
Subject: [PATCH 102/107] fix: the data of an earlier run must not be part of
 the plots of a later run

---
 include/geneva/GPluggableOptimizationMonitors.hpp | 4 ++++
 src/geneva/GPluggableOptimizationMonitors.cpp     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/geneva/GPluggableOptimizationMonitors.hpp b/include/geneva/GPluggableOptimizationMonitors.hpp
index 59098d3..6db8f48 100644
--- a/include/geneva/GPluggableOptimizationMonitors.hpp
+++ b/include/geneva/GPluggableOptimizationMonitors.hpp
@@ -1829,6 +1829,10 @@ private:
 				// Make sure the progress plotter has the desired size
 				m_gpd.setCanvasDimensions(m_canvasDimensions);
 
+				// Start over with the recording
+				m_adaptorPropertyStore.clear();
+				m_nIterationsRecorded = 0;
+
 				// Set up a graph to monitor the best fitness found
 				m_fitnessGraph2D_oa = std::make_shared<Gem::Common::GGraph2D>();
 				m_fitnessGraph2D_oa->setXAxisLabel("Iteration");
diff --git a/src/geneva/GPluggableOptimizationMonitors.cpp b/src/geneva/GPluggableOptimizationMonitors.cpp
index b0f7eab..437192b 100644
--- a/src/geneva/GPluggableOptimizationMonitors.cpp
+++ b/src/geneva/GPluggableOptimizationMonitors.cpp
@@ -1605,6 +1605,10 @@ void GNAdpationsLogger::informationFunction_(
 			// Make sure the progress plotter has the desired size
 			m_gpd.setCanvasDimensions(m_canvasDimensions);
 
+			// Start over with the recording
+			m_nAdaptionsStore.clear();
+			m_nIterationsRecorded = 0;
+
 			// Set up a graph to monitor the best fitness found
 			m_fitnessGraph2D_oa = std::shared_ptr<Gem::Common::GGraph2D>(new Gem::Common::GGraph2D());
 			m_fitnessGraph2D_oa->setXAxisLabel("Iteration");
-- 
2.43.0


From ab71c2696467d382ae12faf53e469d2f8ea7359e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:51 +0000
Subject: [PATCH 103/107] fix: loading a processing times logger must load the
 number of bins in y-direction

---
 src/geneva/GPluggableOptimizationMonitors.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geneva/GPluggableOptimizationMonitors.cpp b/src/geneva/GPluggableOptimizationMonitors.cpp
index 437192b..8a5dc7b 100644
--- a/src/geneva/GPluggableOptimizationMonitors.cpp
+++ b/src/geneva/GPluggableOptimizationMonitors.cpp
@@ -2273,6 +2273,7 @@ void GProcessingTimesLogger::load_(const GObject* cp) {
 	Gem::Common::copyCloneableSmartPointer(p_load->m_all_processing_times_hist2D, m_all_processing_times_hist2D);
 
 	m_nBinsX = p_load->m_nBinsX;
+	m_nBinsY = p_load->m_nBinsY;
 }
 
 /************************************************************************/
-- 
2.43.0


From 7da36ccfd578e19d3c293e9fe4b6feeb5ff60276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:57 +0000
Subject: [PATCH 104/107] fix: copies of loggers must keep the base class'
 settings

---
 include/geneva/GPluggableOptimizationMonitors.hpp | 3 ++-
 src/geneva/GPluggableOptimizationMonitors.cpp     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/geneva/GPluggableOptimizationMonitors.hpp b/include/geneva/GPluggableOptimizationMonitors.hpp
index 6db8f48..d047bf0 100644
--- a/include/geneva/GPluggableOptimizationMonitors.hpp
+++ b/include/geneva/GPluggableOptimizationMonitors.hpp
@@ -1516,7 +1516,8 @@ public:
 	  * The copy constructor
 	  */
 	 GAdaptorPropertyLoggerT(const GAdaptorPropertyLoggerT<num_type>& cp)
-	    : m_fileName(cp.m_fileName)
+	    : GBasePluggableOM(cp)
+		, m_fileName(cp.m_fileName)
 		, m_adaptorName(cp.m_adaptorName)
 		, m_property(cp.m_property)
 		, m_canvasDimensions(cp.m_canvasDimensions)
diff --git a/src/geneva/GPluggableOptimizationMonitors.cpp b/src/geneva/GPluggableOptimizationMonitors.cpp
index 8a5dc7b..fb4e017 100644
--- a/src/geneva/GPluggableOptimizationMonitors.cpp
+++ b/src/geneva/GPluggableOptimizationMonitors.cpp
@@ -1447,7 +1447,8 @@ GNAdpationsLogger::GNAdpationsLogger(const std::string& fileName)
  * The copy constructor
  */
 GNAdpationsLogger::GNAdpationsLogger(const GNAdpationsLogger& cp)
-	: m_fileName(cp.m_fileName)
+	: GBasePluggableOM(cp)
+	  , m_fileName(cp.m_fileName)
 	  , m_canvasDimensions(cp.m_canvasDimensions)
 	  , m_gpd(cp.m_gpd)
 	  , m_monitorBestOnly(cp.m_monitorBestOnly)
-- 
2.43.0


From d340ccfe0e13df6bc87bd7a245d8b572265fb83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:48 +0000
Subject: [PATCH 105/107] fix: an individual evaluated externally must have
 room for all results

---
 src/geneva-individuals/GExternalEvaluatorIndividual.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/geneva-individuals/GExternalEvaluatorIndividual.cpp b/src/geneva-individuals/GExternalEvaluatorIndividual.cpp
index 05b82e0..b22d025 100644
--- a/src/geneva-individuals/GExternalEvaluatorIndividual.cpp
+++ b/src/geneva-individuals/GExternalEvaluatorIndividual.cpp
@@ -186,6 +186,9 @@ void GExternalEvaluatorIndividual::setNExpectedResults(const std::size_t &nResul
 	}
 
 	m_n_results = nResults;
+
+	// Make room for all results
+	this->setNStoredResults(nResults);
 }
 
 /******************************************************************************/
-- 
2.43.0


From 645f8d32ed3abc34fc6ee492f26b9397f559bad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:13 +0000
Subject: [PATCH 106/107] fix: the run id must be part of a serialised external
 evaluator individual

---
 include/geneva-individuals/GExternalEvaluatorIndividual.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/geneva-individuals/GExternalEvaluatorIndividual.hpp b/include/geneva-individuals/GExternalEvaluatorIndividual.hpp
index c207b80..880686a 100644
--- a/include/geneva-individuals/GExternalEvaluatorIndividual.hpp
+++ b/include/geneva-individuals/GExternalEvaluatorIndividual.hpp
@@ -152,6 +152,7 @@ class GExternalEvaluatorIndividual : public GParameterSet {
 		 & BOOST_SERIALIZATION_NVP(m_custom_options)
 		 & BOOST_SERIALIZATION_NVP(m_parameter_file_base_name)
 		 & BOOST_SERIALIZATION_NVP(m_n_results)
+		 & BOOST_SERIALIZATION_NVP(runID_)
 		 & BOOST_SERIALIZATION_NVP(m_remove_exec_temporaries);
 	 }
 
-- 
2.43.0


From e489e131a865f945a0f1bd7254c43bb4ceaab7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:36 +0000
Subject: [PATCH 107/107] fix: a swarm must cope with neighborhoods in which
 all evaluations failed

---
 ...G_OptimizationAlgorithm_SwarmAlgorithm.cpp | 32 ++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
index 85c96b8..7aa1ff4 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
@@ -1180,6 +1180,15 @@ void GSwarmAlgorithm::runFitnessCalculation_() {
 #endif
 	}
 
+	// There must be something left to work with
+	if(this->empty()) {
+		throw gemfony_exception(
+			g_error_streamer(DO_LOG,  time_and_place)
+				<< "In GSwarmAlgorithm::runFitnessCalculation(): Error!" << std::endl
+				<< "No individual was successfully evaluated in iteration " << this->getIteration() << std::endl
+		);
+	}
+
 	//--------------------------------------------------------------------------------
 	// Sort according to the individuals' neighborhoods
 	sort(
@@ -1250,6 +1259,15 @@ std::tuple<double, double> GSwarmAlgorithm::findBests() {
 		std::size_t firstCounter = getFirstNIPos(n);
 		std::size_t lastCounter = getLastNIPos(n);
 
+		// All evaluations in a neighborhood may have failed. There is then no
+		// individual to be taken into account in this iteration.
+		if (firstCounter == lastCounter) {
+			if (inFirstIteration()) {
+				m_neighborhood_bests_cnt.at(n).reset();
+			}
+			continue;
+		}
+
 		// Only partially sort the arrays
 		std::sort(
 			this->begin() + firstCounter, this->begin() + lastCounter,
@@ -1276,7 +1294,12 @@ std::tuple<double, double> GSwarmAlgorithm::findBests() {
 
 	// Identify the best individuals among all neighborhood bests
 	for (std::size_t n = 0; n < m_n_neighborhoods; n++) {
-		if(isBetter(
+		// Neighborhoods without a successful evaluation have no best individual in the first iteration
+		if(not m_neighborhood_bests_cnt.at(n)) {
+			continue;
+		}
+
+		if(not m_neighborhood_bests_cnt.at(bestLocalId) || isBetter(
 			(m_neighborhood_bests_cnt.at(n))->transformed_fitness(0)
 			, std::get<G_TRANSFORMED_FITNESS>(bestLocalFitness)
 			, m
@@ -1290,6 +1313,13 @@ std::tuple<double, double> GSwarmAlgorithm::findBests() {
 	// update it, if necessary. Initialize it in the first generation.
 	if (inFirstIteration()) {
 		m_global_best_ptr = (m_neighborhood_bests_cnt.at(bestLocalId))->clone<GParameterSet>();
+
+		// Let neighborhoods which do not have a best individual yet start with the globally best one
+		for (std::size_t n = 0; n < m_n_neighborhoods; n++) {
+			if(not m_neighborhood_bests_cnt.at(n)) {
+				m_neighborhood_bests_cnt.at(n) = m_global_best_ptr->clone<GParameterSet>();
+			}
+		}
 	} else {
 		if(isBetter(
 			std::get<G_TRANSFORMED_FITNESS>(bestLocalFitness)
-- 
2.43.0

