From b6fe49b64599be77bf4551ce80f02cf495ce4ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:24 +0000
Subject: [PATCH 01/74] fix: skip forbidden features when reconstructing
 depth-two trees

---
 src/solver/terminal_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/terminal_solver.cpp b/src/solver/terminal_solver.cpp
index e902f8a..b5f6cbb 100644
--- a/src/solver/terminal_solver.cpp
+++ b/src/solver/terminal_solver.cpp
@@ -420,7 +420,7 @@ namespace STreeD {
 		Node<OT> temp_node;
 		if (node.num_nodes_left > 0 || node.num_nodes_right > 0) {
 			for (int f2 = 0; f2 < num_features; f2++) {
-				if (f2 == node.feature) continue;
+				if (f2 == node.feature || !task->MayBranchOnFeature(f2)) continue;
 
 				cost_calculator.GetCounts(counts, node.feature, f2);
 				
-- 
2.43.0


From 3cd08d622d4aa36c7f2d6a6f651b1050cfc4f9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:24 +0000
Subject: [PATCH 02/74] fix: keep features that can only split below the root
 in the depth-two solver

---
 src/solver/terminal_solver.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/solver/terminal_solver.cpp b/src/solver/terminal_solver.cpp
index b5f6cbb..9848fd9 100644
--- a/src/solver/terminal_solver.cpp
+++ b/src/solver/terminal_solver.cpp
@@ -57,7 +57,6 @@ namespace STreeD {
 			runtime_assert(total0 == cost_calculator.GetCount00(f1, f1));
 			
 			if (total0 < solver_parameters->minimum_leaf_node_size || total1 < solver_parameters->minimum_leaf_node_size) continue;
-			if (total0 < 2 * solver_parameters->minimum_leaf_node_size && total1 < 2 * solver_parameters->minimum_leaf_node_size) continue;
 			features.push_back(f1);
 		}
 		const int _num_features = int(features.size());
-- 
2.43.0


From 3ff2a64d68df3d1546a4623225d174cd0d902dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:24 +0000
Subject: [PATCH 03/74] fix: do not drop a feature because it equals a feature
 that may not be branched on

---
 src/solver/solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 7bc78dc..f253eb0 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -1184,7 +1184,7 @@ namespace STreeD {
 			}
 			// Find duplicate features and turn them off
 			for (int f1 = 0; f1 < data.NumFeatures() - 1; f1++) {
-				if (redundant_features[f1]) continue;
+				if (redundant_features[f1] || !task->MayBranchOnFeature(f1)) continue;
 				for (int f2 = f1 + 1; f2 < data.NumFeatures(); f2++) {
 					if (redundant_features[f2]) continue;
 					bool same = true;
-- 
2.43.0


From 7b38fa39a0a65984720832432165319130b010d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:24 +0000
Subject: [PATCH 04/74] fix: keep duplicate features when branching costs
 differ per feature

---
 src/solver/solver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index f253eb0..5a81e9f 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -1183,7 +1183,9 @@ namespace STreeD {
 				}
 			}
 			// Find duplicate features and turn them off
+			// (duplicate features are not interchangeable if the branching costs depend on the feature)
 			for (int f1 = 0; f1 < data.NumFeatures() - 1; f1++) {
+				if constexpr (OT::has_branching_costs && !OT::constant_branching_costs) break;
 				if (redundant_features[f1] || !task->MayBranchOnFeature(f1)) continue;
 				for (int f2 = f1 + 1; f2 < data.NumFeatures(); f2++) {
 					if (redundant_features[f2]) continue;
-- 
2.43.0


From 6833c5cbbf2ad87ef632d798bc9fb2d8f0faf4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:24 +0000
Subject: [PATCH 05/74] fix: apply the finished-depth bound of sparse
 objectives to the root node only

---
 src/solver/solver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 5a81e9f..1769896 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -659,7 +659,8 @@ namespace STreeD {
 						break;
 					}
 				}
-				max_depth_searched = std::max(max_depth_searched, max_depth_finished - current_depth);
+				// The whole search space up to max_depth_finished is only known to be exhausted for the root node
+				if (current_depth == 0) max_depth_searched = std::max(max_depth_searched, max_depth_finished);
 				int min_nodes_to_use = max_depth_searched + 1;
 				
 				if (solutions.solution <= min_nodes_to_use * branching_costs + custom_lb.solution) {
-- 
2.43.0


From 8b9df9fc5ca69138e5bb8153d1e25e17e18ccfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:00 +0000
Subject: [PATCH 06/74] fix: do not count branching costs twice in the lower
 bound of sparse objectives

---
 src/solver/solver.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 1769896..ced49b5 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -662,14 +662,17 @@ namespace STreeD {
 				// The whole search space up to max_depth_finished is only known to be exhausted for the root node
 				if (current_depth == 0) max_depth_searched = std::max(max_depth_searched, max_depth_finished);
 				int min_nodes_to_use = max_depth_searched + 1;
+				// Only add the custom lower bound if it does not already account for the branching costs
+				typename Solver<OT>::SolType split_cost_lb = min_nodes_to_use * branching_costs;
+				if constexpr (OT::combine_custom_lb_purification) split_cost_lb += custom_lb.solution;
 				
-				if (solutions.solution <= min_nodes_to_use * branching_costs + custom_lb.solution) {
+				if (solutions.solution <= split_cost_lb) {
 					// The previous solution is cheaper than splitting on at least min_nodes_to_use, so its a LB
 					AddSolsInv<OT>(lb, solutions);
 				} else {
 					// The previous solution is worse than splitting on at least min_nodes_to_use, so use the minimum
 					// number of nodes as the lower bound.
-					Node<OT> split_lb(0, min_nodes_to_use * branching_costs + custom_lb.solution, solutions.num_nodes_left, solutions.num_nodes_right);
+					Node<OT> split_lb(0, split_cost_lb, solutions.num_nodes_left, solutions.num_nodes_right);
 					AddSolsInv<OT>(lb, split_lb);
 				}
 			}
-- 
2.43.0


From c380ec97c25dfe2af69c70854891ce8e59122317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:22 +0000
Subject: [PATCH 07/74] fix: always initialise the test data of a predict or
 score call

---
 src/bindings.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bindings.cpp b/src/bindings.cpp
index aba3e8b..0f7f7cd 100644
--- a/src/bindings.cpp
+++ b/src/bindings.cpp
@@ -133,6 +133,7 @@ py::class_<Solver<OT>> DefineSolver(py::module& m, const std::string& name) {
         py::array_t<typename OT::LabelType, py::array::c_style> y;
         NumpyToSTreeDData<typename OT::LabelType, typename OT::ET>(X, y, extra_data, test_data, test_data_view);
         _solver.PreprocessData(test_data, false);
+        _solver.InitializeTest(test_data_view, true); // Never reuse the data of a previous call
         auto tree = result->trees[result->best_index];
         std::vector<typename OT::LabelType> predictions = _solver.Predict(tree, test_data_view);
         return py::array_t<typename OT::LabelType, py::array::c_style>(predictions.size(), predictions.data()); 
@@ -148,6 +149,7 @@ py::class_<Solver<OT>> DefineSolver(py::module& m, const std::string& name) {
         ADataView test_data_view;
         NumpyToSTreeDData<typename OT::LabelType, typename OT::ET>(X, y_true, extra_data, test_data, test_data_view);
         _solver.PreprocessData(test_data, false);
+        _solver.InitializeTest(test_data_view, true); // Never reuse the data of a previous call
         return _solver.TestPerformance(solver_result, test_data_view);
     });
 
-- 
2.43.0


From dbecc52b96f5c28062e97ce37f8c89ab98ac469b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:22 +0000
Subject: [PATCH 08/74] fix: weigh merged instances in the training question
 length

---
 include/model/data.h    | 1 +
 include/solver/result.h | 2 +-
 include/solver/tree.h   | 2 +-
 src/model/data.cpp      | 8 ++++++++
 4 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/model/data.h b/include/model/data.h
index bbbfd79..c079ec6 100644
--- a/include/model/data.h
+++ b/include/model/data.h
@@ -192,6 +192,7 @@ namespace STreeD {
 		inline int NumLabels() const { return int(instances.size()); }
 		inline int NumFeatures() const { return data->NumFeatures(); }
 		inline int Size() const { return size; }
+		double TotalWeight() const;
 		void ComputeSize();
 		inline const AData* GetData() const { return data; }
 		inline bool IsInitialized() const { return data != nullptr; }
diff --git a/include/solver/result.h b/include/solver/result.h
index 05dead3..135c3ac 100644
--- a/include/solver/result.h
+++ b/include/solver/result.h
@@ -48,7 +48,7 @@ namespace STreeD {
 			
 			// compute the final train and test score
 			result->score = task->ComputeTrainTestScore(result->train_test_value);
-			result->average_path_length = result->average_path_length / double(train_data.Size());
+			result->average_path_length = result->average_path_length / train_data.TotalWeight();
 			return result;
 		}
 
diff --git a/include/solver/tree.h b/include/solver/tree.h
index c6b1cec..fda08c6 100644
--- a/include/solver/tree.h
+++ b/include/solver/tree.h
@@ -75,7 +75,7 @@ namespace STreeD {
 
 		void ComputeTrainScore(DataSplitter* data_splitter, OT* task, const typename OT::ContextType& context,
 			const ADataView& train_data, InternalTrainScore<OT>& result) const {
-			result.average_path_length += train_data.Size();
+			result.average_path_length += train_data.TotalWeight();
 			if (IsLabelNode()) {
 				result.train_value = OT::Add(result.train_value, task->GetLeafCosts(train_data, context, label));
 				result.train_test_value = OT::TestAdd(result.train_test_value, task->GetTestLeafCosts(train_data, context, label));
diff --git a/src/model/data.cpp b/src/model/data.cpp
index a1a0988..d7cbd4d 100644
--- a/src/model/data.cpp
+++ b/src/model/data.cpp
@@ -323,6 +323,14 @@ namespace STreeD {
 		size += 1;
 	}
 
+	double ADataView::TotalWeight() const {
+		double weight = 0;
+		for (int label = 0; label < NumLabels(); label++) {
+			for (auto i : GetInstancesForLabel(label)) weight += i->GetWeight();
+		}
+		return weight;
+	}
+
 	void ADataView::ComputeSize() {
 		size = 0;
 		for (int label = 0; label < NumLabels(); label++) {
-- 
2.43.0


From dacb5fe2207602b30ebb2a7906779cadd0bed125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:22 +0000
Subject: [PATCH 09/74] fix: do not read missing labels when predicting with
 equality of opportunity

---
 src/tasks/eq_opp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tasks/eq_opp.cpp b/src/tasks/eq_opp.cpp
index 4c9d978..30856ba 100644
--- a/src/tasks/eq_opp.cpp
+++ b/src/tasks/eq_opp.cpp
@@ -18,10 +18,10 @@ namespace STreeD {
 
 	void EqOpp::InformTestData(const ADataView& test_data, const DataSummary& test_summary) {
 		OptimizationTask::InformTestData(test_data, test_summary);
-		runtime_assert(test_data.NumLabels() == 2);
 		// only count instances with label = 1 (positive label)
 		test_group0_size = 0;
 		test_group1_size = 0;
+		if (test_data.NumLabels() < 2) return; // No label information, e.g., when predicting
 		for (auto& dp : test_data.GetInstancesForLabel(1)) {
 			if (dp->IsFeaturePresent(0))
 				test_group1_size++;
-- 
2.43.0


From dacaf1c977bf19f5879ebfe59aab53835b6856a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:09 +0000
Subject: [PATCH 10/74] fix: only prune a set of solutions when the upper bound
 dominates all of them

---
 include/solver/optimization_utils.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/solver/optimization_utils.h b/include/solver/optimization_utils.h
index 2c9e7cf..8947a86 100644
--- a/include/solver/optimization_utils.h
+++ b/include/solver/optimization_utils.h
@@ -257,15 +257,15 @@ namespace STreeD {
 	}
 
 	/*
-	* Return true iff for all left solutions there is at least one right solution that inverse strictly dominates it
+	* Return true iff all right solutions are strictly dominated by at least one left solution
 	*/
 	template <class OT>
 	bool LeftStrictDominatesRight(const SolContainer<OT>& left, const SolContainer<OT>& right) {
 		if constexpr (OT::total_order) {
 			return LeftStrictDominatesRight<OT>(left.solution, right.solution);
 		} else {
-			for (const auto& assignment : left->GetSolutions()) {
-				if (!right->StrictDominatesInv(assignment)) { return false; }
+			for (const auto& assignment : right->GetSolutions()) {
+				if (!left->StrictDominates(assignment)) { return false; }
 			}
 			return true;
 		}
-- 
2.43.0


From 4ac292bc94c5d055f1225497aea0dd8a2c611cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:13:03 +0000
Subject: [PATCH 11/74] fix: subtract solution sets from Pareto upper bounds
 soundly

---
 src/solver/solver.cpp | 45 +++++++++++--------------------------------
 1 file changed, 11 insertions(+), 34 deletions(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index ced49b5..543fbd5 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -822,47 +822,24 @@ namespace STreeD {
 				sols_ptr = &small_sols;
 			}
 
-			Solver<OT>::SolContainer corner_union = InitializeSol<OT>();
-			Solver<OT>::SolContainer sub_union = InitializeSol<OT>();
-			auto extreme_points = OT::ExtremePoints();
+			// A solution is dominated by the updated UB iff, for every solution in sols, the sum is dominated by the UB.
+			// Therefore, combine the subtracted UBs for each of the solutions by taking their (pairwise) worst-case
 			for (size_t j = 0; j < (*sols_ptr)->Size(); j++) {
 				Solver<OT>::SolContainer sub_ub = InitializeSol<OT>();
 				for (size_t i = 0; i < (*UB_ptr)->Size(); i++) {
 					OT::Subtract((*UB_ptr)->Get(i).solution, (*sols_ptr)->Get(j).solution, diffsol.solution);
-					//sub_ub->AddOrInvMerge(diffsol, MAX_SIZE);
-					sub_ub->Add(diffsol);
-				}
-				for (auto& ep : extreme_points) {
-					sub_ub->Add(Node<OT>(ep));
-				}
-
-				// Compute 'staircase corners'
-				Solver<OT>::SolContainer corners = InitializeSol<OT>();
-				for (size_t i = 0; i < sub_ub->Size(); i++) {
-					for (size_t k = i + 1; k < sub_ub->Size(); k++) {
-						OT::MergeInv(sub_ub->Get(i).solution, sub_ub->Get(k).solution, diffsol.solution);
-						//corners->AddOrInvMerge(diffsol, MAX_SIZE);
-						corners->Add(diffsol);
+					if (j == 0) {
+						sub_ub->AddOrInvMerge(diffsol, MAX_SIZE);
+						continue;
+					}
+					Node<OT> worst_sol;
+					for (size_t k = 0; k < updatedUB->Size(); k++) {
+						OT::MergeInv(diffsol.solution, updatedUB->Get(k).solution, worst_sol.solution);
+						sub_ub->AddOrInvMerge(worst_sol, MAX_SIZE);
 					}
 				}
-				//corner_union->AddInvOrInvMerge(*(corners.get()), MAX_SIZE);
-				//sub_union->AddInvOrInvMerge(*(sub_ub.get()), MAX_SIZE);
-				
-				corner_union->AddInv(*(corners.get()));
-				sub_union->AddInv(*(sub_ub.get()));
-			}
-			// Compute 'staircase corners'
-			for (auto& ep : extreme_points) {
-				corner_union->Add(Node<OT>(ep));
-			}
-			for (size_t i = 0; i < corner_union->Size(); i++) {
-				for (size_t k = i + 1; k < corner_union->Size(); k++) {
-					OT::Merge(corner_union->Get(i).solution, corner_union->Get(k).solution, diffsol.solution);
-					updatedUB->AddInvOrInvMerge(diffsol, MAX_SIZE);
-				}
+				updatedUB = sub_ub;
 			}
-			updatedUB->AddInvOrInvMerge(*(sub_union.get()), MAX_SIZE);
-			//updatedUB->AddOrInvMerge(*(UB_ptr->get()), MAX_SIZE);
 			
 		}
 		// In the root nod of the search, feasible solutions can be relaxed by removing information that is related
-- 
2.43.0


From 5f47cb68a35b7c97a5cb4a58fc547735909e2ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:13:24 +0000
Subject: [PATCH 12/74] fix: tolerate rounding errors when comparing to the
 discrimination limit

---
 include/tasks/eq_opp.h         | 3 ++-
 include/tasks/group_fairness.h | 3 ++-
 src/tasks/eq_opp.cpp           | 4 ++--
 src/tasks/group_fairness.cpp   | 4 ++--
 4 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/tasks/eq_opp.h b/include/tasks/eq_opp.h
index 50d4db1..bbb868d 100644
--- a/include/tasks/eq_opp.h
+++ b/include/tasks/eq_opp.h
@@ -5,6 +5,7 @@ namespace STreeD {
 
 	struct EqOppSol {
 		static constexpr double gf_epsilon = 1e-4;
+		static constexpr double limit_tolerance = 1e-9; // Tolerance for rounding errors when comparing to the discrimination limit
 		int misclassifications{ 0 };
 		double group0_score{ 0 };
 		double group1_score{ 0 };
@@ -159,7 +160,7 @@ namespace STreeD {
 
 		inline bool SatisfiesConstraint(const Node<EqOpp>& sol, const BranchContext& context) {
 			double disc = std::max(sol.solution.group0_score, sol.solution.group1_score) - 1;
-			return disc <= discrimination_limit;
+			return disc <= discrimination_limit + EqOppSol::limit_tolerance;
 		}
 
 		void RelaxRootSolution(Node<EqOpp>& sol) const;
diff --git a/include/tasks/group_fairness.h b/include/tasks/group_fairness.h
index ab14eae..385c3c4 100644
--- a/include/tasks/group_fairness.h
+++ b/include/tasks/group_fairness.h
@@ -5,6 +5,7 @@ namespace STreeD {
 
 	struct GroupFairnessSol {
 		static constexpr double gf_epsilon = 1e-4;
+		static constexpr double limit_tolerance = 1e-9; // Tolerance for rounding errors when comparing to the discrimination limit
 		int misclassifications { 0 };
 		double group0_score { 0 };
 		double group1_score { 0 };
@@ -159,7 +160,7 @@ namespace STreeD {
 
 		inline bool SatisfiesConstraint(const Node<GroupFairness>& sol, const BranchContext& context) {
 			double disc = std::max(sol.solution.group0_score, sol.solution.group1_score) - 1;
-			return disc <= discrimination_limit;
+			return disc <= discrimination_limit + GroupFairnessSol::limit_tolerance;
 		}
 
 		void RelaxRootSolution(Node<GroupFairness>& sol) const;
diff --git a/src/tasks/eq_opp.cpp b/src/tasks/eq_opp.cpp
index 30856ba..5724922 100644
--- a/src/tasks/eq_opp.cpp
+++ b/src/tasks/eq_opp.cpp
@@ -71,7 +71,7 @@ namespace STreeD {
 	double EqOpp::ComputeTrainScore(const EqOppSol& train_value) const {
 		runtime_assert(train_summary.instances_per_class.size() == 2);
 		double disc = std::max(train_value.group0_score, train_value.group1_score) - 1;
-		if (disc <= discrimination_limit)
+		if (disc <= discrimination_limit + EqOppSol::limit_tolerance)
 			return ((double)(train_summary.size - train_value.misclassifications)) / ((double)train_summary.size);
 		else
 			return 0;
@@ -85,7 +85,7 @@ namespace STreeD {
 		runtime_assert(test_summary.instances_per_class.size() == 2);
 		
 		double disc = std::max(test_value.group0_score, test_value.group1_score) - 1;
-		if (disc <= discrimination_limit)
+		if (disc <= discrimination_limit + EqOppSol::limit_tolerance)
 			return ((double)(test_summary.size - test_value.misclassifications)) / ((double)test_summary.size);
 		else
 			return 0;
diff --git a/src/tasks/group_fairness.cpp b/src/tasks/group_fairness.cpp
index dc3d0fe..3988e5b 100644
--- a/src/tasks/group_fairness.cpp
+++ b/src/tasks/group_fairness.cpp
@@ -70,7 +70,7 @@ namespace STreeD {
 	double GroupFairness::ComputeTrainScore(const GroupFairnessSol& train_value) const {
 		runtime_assert(train_summary.instances_per_class.size() == 2);
 		double disc = std::max(train_value.group0_score, train_value.group1_score) - 1;
-		if (disc <= discrimination_limit)
+		if (disc <= discrimination_limit + GroupFairnessSol::limit_tolerance)
 			return ((double)(train_summary.size - train_value.misclassifications)) / ((double)train_summary.size);
 		else
 			return 0;
@@ -84,7 +84,7 @@ namespace STreeD {
 		runtime_assert(test_summary.instances_per_class.size() == 2);
 		
 		double disc = std::max(test_value.group0_score, test_value.group1_score) - 1;
-		if (disc <= discrimination_limit)
+		if (disc <= discrimination_limit + GroupFairnessSol::limit_tolerance)
 			return ((double)(test_summary.size - test_value.misclassifications)) / ((double)test_summary.size);
 		else
 			return 0;
-- 
2.43.0


From e4156066c5f27a0741e0a4bc6b2208ede4a11c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:13:43 +0000
Subject: [PATCH 13/74] fix: use the largest group contribution in the fairness
 similarity bound

---
 include/tasks/eq_opp.h         | 5 ++---
 include/tasks/group_fairness.h | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/tasks/eq_opp.h b/include/tasks/eq_opp.h
index bbb868d..4ec6d43 100644
--- a/include/tasks/eq_opp.h
+++ b/include/tasks/eq_opp.h
@@ -87,9 +87,8 @@ namespace STreeD {
 
 		void ComputeD2Costs(const EqOppSol& d2costs, int count, EqOppSol& costs) const { costs = d2costs; }
 		inline EqOppSol GetWorstPerLabel(int label) const {
-			return label ?
-				EqOppSol({ 1, 1.0 / train_group1_size, 1.0 / train_group0_size }) :
-				EqOppSol({ 1, 0.0, 0.0 });
+			const double worst_group = 1.0 / std::min(train_group0_size, train_group1_size);
+			return label ? EqOppSol({ 1, worst_group, worst_group }) : EqOppSol({ 1, 0.0, 0.0 });
 		}
 
 		double ComputeTrainScore(const EqOppSol& train_value) const;
diff --git a/include/tasks/group_fairness.h b/include/tasks/group_fairness.h
index 385c3c4..2e67cd8 100644
--- a/include/tasks/group_fairness.h
+++ b/include/tasks/group_fairness.h
@@ -87,9 +87,8 @@ namespace STreeD {
 
 		void ComputeD2Costs(const GroupFairnessSol& d2costs, int count, GroupFairnessSol& costs) const { costs = d2costs; }
 		inline GroupFairnessSol GetWorstPerLabel(int label) const { 
-			return label ?
-				GroupFairnessSol({ 1, 1.0 / train_group1_size, 1.0 / train_group0_size }) :
-				GroupFairnessSol({ 1, 1.0 / train_group0_size, 1.0 / train_group1_size });
+			const double worst_group = 1.0 / std::min(train_group0_size, train_group1_size);
+			return GroupFairnessSol({ 1, worst_group, worst_group });
 		}
 		
 		double ComputeTrainScore(const GroupFairnessSol& train_value) const;
-- 
2.43.0


From 1c5f6740e5f4d5da301301400a26d548b95ecbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:27:52 +0000
Subject: [PATCH 14/74] fix: reconstruct small Pareto trees independently of
 filtered cache entries

---
 src/solver/solver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 543fbd5..e7811fb 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -987,7 +987,8 @@ namespace STreeD {
 
 		// Special D2 reconstruct
 		if constexpr (OT::use_terminal) {
-			if (!d1 && IsTerminalNode(max_depth, num_nodes)) {
+			if (!d1 && (IsTerminalNode(max_depth, num_nodes)
+				|| (!OT::total_order && solver_parameters.use_terminal_solver && sol.num_nodes_left <= 1 && sol.num_nodes_right <= 1))) {
 				try {
 					return terminal_solver1->ConstructOptimalTree(sol, data, context, max_depth, num_nodes);
 				} catch (...){} // Continue to the default way of reconstructing
-- 
2.43.0


From 4fedf0a0eaef8e9195baf8e36f84b96fffe851a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:31 +0000
Subject: [PATCH 15/74] fix: do not stop the search for two-node trees when a
 three-node tree is perfect

---
 src/solver/terminal_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/terminal_solver.cpp b/src/solver/terminal_solver.cpp
index 9848fd9..e3b3aab 100644
--- a/src/solver/terminal_solver.cpp
+++ b/src/solver/terminal_solver.cpp
@@ -66,7 +66,7 @@ namespace STreeD {
 
 		for (int _f1 = 0; _f1 < _num_features; _f1++) {
 			int f1 = features[_f1];
-			if (SolutionsEqual<OT>(zero_sol, results.three_nodes_solutions)) break;
+			if (SolutionsEqual<OT>(zero_sol, results.two_nodes_solutions)) break; // Continue if only the three node solution is perfect
 
 			for (int _f2 = _f1 + 1; _f2 < _num_features; _f2++) {
 				int f2 = features[_f2];
-- 
2.43.0


From 5d225faabcba5a1e555e0f53bd312ec7c94a5e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:39:22 +0000
Subject: [PATCH 16/74] fix: only use the similarity bound for subsets when
 leaf nodes have a minimum size

---
 include/solver/similarity_lowerbound.h | 3 ++-
 src/solver/similarity_lowerbound.cpp   | 9 +++++++--
 src/solver/solver.cpp                  | 2 +-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/solver/similarity_lowerbound.h b/include/solver/similarity_lowerbound.h
index 149e22a..527f3d1 100644
--- a/include/solver/similarity_lowerbound.h
+++ b/include/solver/similarity_lowerbound.h
@@ -35,7 +35,7 @@ namespace STreeD {
 		using SolContainer = typename std::conditional<OT::total_order, Node<OT>, std::shared_ptr<Container<OT>>>::type;
 
 	public:
-		SimilarityLowerBoundComputer(OT* optimization_task, int num_labels, int max_depth, int num_nodes, int num_instances);
+		SimilarityLowerBoundComputer(OT* optimization_task, int num_labels, int max_depth, int num_nodes, int num_instances, int minimum_leaf_node_size);
 
 		//computes the lower bound with respect to the data currently present in the data structure
 		//note that this does not add any information internally
@@ -67,6 +67,7 @@ namespace STreeD {
 
 		std::vector<std::vector<ArchiveEntry> > archive_;//archive_[depth][i]
 		bool disabled_;
+		int minimum_leaf_node_size_; // The similarity bound only compares subsets if leaf nodes have a minimum size > 1
 
 		std::vector<SolType> _worst;
 		bool _best_zero;
diff --git a/src/solver/similarity_lowerbound.cpp b/src/solver/similarity_lowerbound.cpp
index 9ee706d..22abff1 100644
--- a/src/solver/similarity_lowerbound.cpp
+++ b/src/solver/similarity_lowerbound.cpp
@@ -8,8 +8,8 @@ https://bitbucket.org/EmirD/murtree
 namespace STreeD {
 
 	template <class OT>
-	SimilarityLowerBoundComputer<OT>::SimilarityLowerBoundComputer(OT* optimization_task, int num_labels, int max_depth, int size, int num_instances) :
-		disabled_(false) {
+	SimilarityLowerBoundComputer<OT>::SimilarityLowerBoundComputer(OT* optimization_task, int num_labels, int max_depth, int size, int num_instances, int minimum_leaf_node_size) :
+		disabled_(false), minimum_leaf_node_size_(minimum_leaf_node_size) {
 		Initialise(optimization_task, num_labels, max_depth, size);
 	}
 
@@ -41,6 +41,11 @@ namespace STreeD {
 		auto& lb = result.lower_bound;
 		for (auto& entry : archive_[depth]) {
 			if (entry.data.Size() > data.Size() * (1 + max_difference)) { continue; }
+			if (minimum_leaf_node_size_ > 1) {
+				// A tree that is feasible for the new data may have too small leaf nodes in the old data when instances are added
+				DifferenceMetrics metrics = BinaryDataDifferenceComputer::ComputeDifferenceMetrics(entry.data, data);
+				if (metrics.total_difference > metrics.GetNumRemovals()) { continue; }
+			}
 
 			if constexpr (OT::custom_similarity_lb) {
 				auto metrics = task->ComputeSimilarityLowerBound(entry.data, data);
diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index e7811fb..e3d166d 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -267,7 +267,7 @@ namespace STreeD {
 		if constexpr (OT::element_additive) {
 			if (similarity_lower_bound_computer != nullptr) delete similarity_lower_bound_computer;
 			similarity_lower_bound_computer = new SimilarityLowerBoundComputer<OT>(task,
-				NumLabels(), MAX_DEPTH, int(parameters.GetIntegerParameter("max-num-nodes")), train_data.Size());
+				NumLabels(), MAX_DEPTH, int(parameters.GetIntegerParameter("max-num-nodes")), train_data.Size(), solver_parameters.minimum_leaf_node_size);
 			if (!solver_parameters.similarity_lb) similarity_lower_bound_computer->Disable();
 		} else {
 			solver_parameters.similarity_lb = false;
-- 
2.43.0


From d69eeb660c83e832dacdfb3e0d7f2a7571fee51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:20 +0000
Subject: [PATCH 17/74] fix: include the leaf node and skipped features in the
 lower bound of pruned subtrees

---
 src/solver/solver.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index e3d166d..9763cb3 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -401,7 +401,10 @@ namespace STreeD {
 			if (solver_parameters.use_lower_bounding && SolutionsEqual<OT>(branch_lb, solutions)) break;
 			if (solver_parameters.use_lower_bounding
 				&& solver_parameters.use_upper_bounding
-				&& LeftStrictDominatesRight<OT>(UB, branch_lb)) break;
+				&& LeftStrictDominatesRight<OT>(UB, branch_lb)) {
+				AddSols<OT>(infeasible_lb, branch_lb);
+				break;
+			}
 			int feature = feature_selector->PopNextFeature();
 			if (branch.HasBranchedOnFeature(feature) 
 				|| !task->MayBranchOnFeature(feature)
@@ -409,7 +412,10 @@ namespace STreeD {
 			auto branching_costs = GetBranchingCosts(data, context, feature);
 			// Break if the current UB is lower than the constant branching costs (if applicable)
 			if constexpr (Solver<OT>::sparse_objective) {
-				if (solver_parameters.use_upper_bounding && UB.solution < branching_costs) break;
+				if (solver_parameters.use_upper_bounding && UB.solution < branching_costs) {
+					AddSols<OT>(infeasible_lb, branch_lb);
+					break;
+				}
 			}
 
 			// Split the data and skip if the split does not meet the minimum leaf node size requirements
@@ -519,6 +525,9 @@ namespace STreeD {
 			if (SolutionsEqual<OT>(infeasible_lb, InitializeSol<OT>())) {
 				infeasible_lb = orgUB;
 			} else {
+				// The leaf node is pruned by the UB, but it may still be cheaper than every split
+				auto no_UB = InitializeSol<OT>();
+				AddSols<OT>(infeasible_lb, SolveLeafNode(data, context, no_UB));
 				AddSolsInv<OT>(infeasible_lb, orgUB);
 			}
 			cache->UpdateLowerBound(data, branch, infeasible_lb, max_depth, num_nodes);
-- 
2.43.0


From c57ea519ad28ff5cfc5fe831a8c0dba8241a88a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:47:36 +0000
Subject: [PATCH 18/74] fix: only update lower bounds for node budgets the
 terminal solver has computed

---
 src/solver/solver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 9763cb3..25c8399 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -572,7 +572,7 @@ namespace STreeD {
 				cache->UpdateLowerBound(data, branch, UB, 1, 1);
 			}
 		}
-		if (!cache->IsOptimalAssignmentCached(data, branch, 2, 2)) {
+		if (num_nodes > 1 && !cache->IsOptimalAssignmentCached(data, branch, 2, 2)) {
 			auto& two_nodes_solutions = results.two_nodes_solutions;
 			if (!CheckEmptySol<OT>(two_nodes_solutions)) {
 				cache->StoreOptimalBranchAssignment(data, branch, two_nodes_solutions, 2, 2);
@@ -580,7 +580,7 @@ namespace STreeD {
 				cache->UpdateLowerBound(data, branch, UB, 2, 2);
 			}
 		}
-		if (!cache->IsOptimalAssignmentCached(data, branch, 2, 3)) {
+		if (num_nodes > 1 && !cache->IsOptimalAssignmentCached(data, branch, 2, 3)) {
 			auto& three_nodes_solutions = results.three_nodes_solutions;
 			if (!CheckEmptySol<OT>(three_nodes_solutions)) {
 				cache->StoreOptimalBranchAssignment(data, branch, three_nodes_solutions, 2, 3);
-- 
2.43.0


From 8e7139041aeae78aa06d0da593c54d99d15ade04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:47:36 +0000
Subject: [PATCH 19/74] fix: include the variance of merged instances in the
 regression similarity bound

---
 include/tasks/regression/cost_complex_regression.h |  2 ++
 src/tasks/regression/cost_complex_regression.cpp   | 11 +++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/tasks/regression/cost_complex_regression.h b/include/tasks/regression/cost_complex_regression.h
index f8330fd..3413632 100644
--- a/include/tasks/regression/cost_complex_regression.h
+++ b/include/tasks/regression/cost_complex_regression.h
@@ -85,6 +85,8 @@ namespace STreeD {
 
 			return distMin > distMax ? distMin * distMin : distMax * distMax;
 		}
+		// The worst possible cost of a (merged) instance, including the variance of the instances that are merged into it
+		double GetWorstCost(const AInstance* instance) const;
 
 		/*
 		* Node only used as a container for the SolType, the label has no significance.
diff --git a/src/tasks/regression/cost_complex_regression.cpp b/src/tasks/regression/cost_complex_regression.cpp
index 9a2db07..f5afb5f 100644
--- a/src/tasks/regression/cost_complex_regression.cpp
+++ b/src/tasks/regression/cost_complex_regression.cpp
@@ -346,6 +346,13 @@ namespace STreeD {
 		return lb;
 	}
 
+	double CostComplexRegression::GetWorstCost(const AInstance* instance) const {
+		double weight = instance->GetWeight();
+		double label = GetInstanceLabel<double>(instance); // The sum of the labels of the merged instances
+		double within_cost = GetYSQ(instance) - label * label / weight;
+		return weight * GetWorstPerLabel(label / weight) + std::max(0.0, within_cost);
+	}
+
 	PairWorstCount<CostComplexRegression> CostComplexRegression::ComputeSimilarityLowerBound(const ADataView& data_old, const ADataView& data_new) const {
 		int total_diff = 0;
 		double worst_diff = 0;
@@ -368,7 +375,7 @@ namespace STreeD {
 				//the old data has something the new one does not
 				else if (id_new > id_old) {
 					total_diff += weight_old;
-					worst_diff += weight_old * GetWorstPerLabel(GetInstanceLabel<double>(old_instances[index_old]) / weight_old);
+					worst_diff += GetWorstCost(old_instances[index_old]);
 					index_old++;
 				} else {//no difference
 					index_new ++;
@@ -384,7 +391,7 @@ namespace STreeD {
 			for (; index_old < size_old; index_old++) {
 				int weight_old = int(old_instances[index_old]->GetWeight());
 				total_diff += weight_old;
-				worst_diff += weight_old * GetWorstPerLabel(GetInstanceLabel<double>(old_instances[index_old]) / weight_old);
+				worst_diff += GetWorstCost(old_instances[index_old]);
 			}
 		}
 		PairWorstCount<CostComplexRegression> result(worst_diff, total_diff);
-- 
2.43.0


From 63720099aab93adabdceefcd99b7e8361818c381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:50:49 +0000
Subject: [PATCH 20/74] fix: consider every label with a cost in
 instance-cost-sensitive classification

---
 src/tasks/instance_cost_sensitive.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tasks/instance_cost_sensitive.cpp b/src/tasks/instance_cost_sensitive.cpp
index 5cfcf6e..e608b00 100644
--- a/src/tasks/instance_cost_sensitive.cpp
+++ b/src/tasks/instance_cost_sensitive.cpp
@@ -4,6 +4,12 @@
 namespace STreeD {
 
     void InstanceCostSensitive::PreprocessTrainData(ADataView& train_data) {
+        // Every label with a cost may be assigned, also the labels that are not the cheapest for any instance
+        for (int k = 0; k < train_data.NumLabels(); k++) {
+            for (const auto i : train_data.GetInstancesForLabel(k)) {
+                num_labels = std::max(num_labels, GetInstanceExtraData<int, InstanceCostSensitiveData>(i).NumLabels());
+            }
+        }
         if(num_labels > train_data.NumLabels()) train_data.GetMutableInstances().resize(num_labels);
     }
 
-- 
2.43.0


From 3ac34f896cd645dea5ab3428fdd3e38ba0e1e83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:50:49 +0000
Subject: [PATCH 21/74] fix: make the question length available for tasks with
 extra data or a sensitive feature

---
 pystreed/group_fair.py                           | 16 ++++++++++++++++
 .../instance_cost_sensitive_classification.py    | 15 +++++++++++++++
 pystreed/prescriptive_policy_generation.py       | 15 +++++++++++++++
 3 files changed, 46 insertions(+)

diff --git a/pystreed/group_fair.py b/pystreed/group_fair.py
index 7550238..f662b98 100644
--- a/pystreed/group_fair.py
+++ b/pystreed/group_fair.py
@@ -159,6 +159,22 @@ class STreeDGroupFairnessClassifier(BaseSTreeDSolver):
         """
         X = self._move_sensitive_feature_first(X)
         return super().score(X, y_true)
+
+    def get_question_length(self, X, y_true):
+        """
+        Computes the average question length for the given input feature data
+
+        Args:
+            x : array-like, shape = (n_samples, n_features)
+            Data matrix
+            y_true : array-like, shape = (n_samples)
+            The true labels
+
+        Returns:
+            The question length
+        """
+        X = self._move_sensitive_feature_first(X)
+        return super().get_question_length(X, y_true)
         
     def _export_dot_leaf_node(self, fh, node, node_id, label_names, train_data):
         if not hasattr(self, "_colors"):
diff --git a/pystreed/instance_cost_sensitive_classification.py b/pystreed/instance_cost_sensitive_classification.py
index a3f7b0b..014b01a 100644
--- a/pystreed/instance_cost_sensitive_classification.py
+++ b/pystreed/instance_cost_sensitive_classification.py
@@ -167,6 +167,21 @@ class STreeDInstanceCostSensitiveClassifier(BaseSTreeDSolver):
         y_test, extra_data = self._check_data(y_test, reset=False)
         return super().score(X, y_test, extra_data)
 
+    def get_question_length(self, X, y_test):
+        """
+        Computes the average question length for the given input feature data
+
+        Args:
+            x : array-like, shape = (n_samples, n_features)
+            Data matrix
+            y_test : array-like, in the same format as for score
+
+        Returns:
+            The question length
+        """
+        y_test, extra_data = self._check_data(y_test, reset=False)
+        return super().get_question_length(X, y_test, extra_data)
+
     def export_dot(self, filename, feature_names=None, label_names=None):
         """
         Export the tree as a .dot file (for plotting)
diff --git a/pystreed/prescriptive_policy_generation.py b/pystreed/prescriptive_policy_generation.py
index 08af0fa..beb03ec 100644
--- a/pystreed/prescriptive_policy_generation.py
+++ b/pystreed/prescriptive_policy_generation.py
@@ -204,6 +204,21 @@ class STreeDPrescriptivePolicyGenerator(BaseSTreeDSolver):
         y_test, extra_data = self._check_data(y_test, reset=False)
         return super().score(X, y_test, extra_data)
 
+    def get_question_length(self, X, y_test):
+        """
+        Computes the average question length for the given input feature data
+
+        Args:
+            x : array-like, shape = (n_samples, n_features)
+            Data matrix
+            y_test : array-like, in the same format as for score
+
+        Returns:
+            The question length
+        """
+        y_test, extra_data = self._check_data(y_test, reset=False)
+        return super().get_question_length(X, y_test, extra_data)
+
     def _export_dot_leaf_node(self, fh, node, node_id, label_names, train_data):
         if not hasattr(self, "_colors"):
             self._colors = _color_brew(self.n_classes_)
-- 
2.43.0


From c5076bec8cd83c91397ff73bf7ca8795fa6e58d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:50:49 +0000
Subject: [PATCH 22/74] fix: do not reorder the caller's data frame when moving
 the sensitive feature

---
 pystreed/group_fair.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystreed/group_fair.py b/pystreed/group_fair.py
index f662b98..6ebbe78 100644
--- a/pystreed/group_fair.py
+++ b/pystreed/group_fair.py
@@ -86,6 +86,7 @@ class STreeDGroupFairnessClassifier(BaseSTreeDSolver):
         return self._params
 
     def _move_sensitive_feature_first(self, X):
+        if isinstance(X, pd.DataFrame): X = X.copy() # Do not change the data of the caller
         if isinstance(self.sensitive_feature, int):
             if self.sensitive_feature == 0: return X
             if isinstance(X, pd.DataFrame):
-- 
2.43.0


From 016eb5113dfd2048fd19752ee5f0928bf456936c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:50:49 +0000
Subject: [PATCH 23/74] fix: pass the categorical columns on to the binarizer

---
 pystreed/cost_sensitive_classification.py          | 2 +-
 pystreed/group_fair.py                             | 2 +-
 pystreed/instance_cost_sensitive_classification.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystreed/cost_sensitive_classification.py b/pystreed/cost_sensitive_classification.py
index af60201..19092a6 100644
--- a/pystreed/cost_sensitive_classification.py
+++ b/pystreed/cost_sensitive_classification.py
@@ -88,7 +88,7 @@ class STreeDCostSensitiveClassifier(BaseSTreeDSolver):
         """
         self.n_classes_ = len(np.unique(y))
         self.cost_specifier_ = cost_specifier
-        return super().fit(X, y, categorical)
+        return super().fit(X, y, categorical=categorical)
         
     def _export_dot_leaf_node(self, fh, node, node_id, label_names, train_data):
         if not hasattr(self, "_colors"):
diff --git a/pystreed/group_fair.py b/pystreed/group_fair.py
index 6ebbe78..be97740 100644
--- a/pystreed/group_fair.py
+++ b/pystreed/group_fair.py
@@ -128,7 +128,7 @@ class STreeDGroupFairnessClassifier(BaseSTreeDSolver):
         """
         self.n_classes_ = len(np.unique(y))
         X = self._move_sensitive_feature_first(X)
-        return super().fit(X, y, categorical)
+        return super().fit(X, y, categorical=categorical)
     
     def predict(self, X):
         """
diff --git a/pystreed/instance_cost_sensitive_classification.py b/pystreed/instance_cost_sensitive_classification.py
index 014b01a..a675c94 100644
--- a/pystreed/instance_cost_sensitive_classification.py
+++ b/pystreed/instance_cost_sensitive_classification.py
@@ -130,7 +130,7 @@ class STreeDInstanceCostSensitiveClassifier(BaseSTreeDSolver):
             ValueError: If x or y is None or if they have different number of rows.
         """
         y, extra_data = self._check_data(y)
-        return super().fit(X, y, extra_data)
+        return super().fit(X, y, extra_data, categorical)
     
     def predict(self, X, extra_data=None):
         """
-- 
2.43.0


From 1cd2ea47427f2ed6c7de44d92a0d9870fdb5808b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:50:49 +0000
Subject: [PATCH 24/74] fix: report an estimator without a current successful
 fit as not fitted

---
 pystreed/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pystreed/base.py b/pystreed/base.py
index 3ba8afc..8c8b5f2 100644
--- a/pystreed/base.py
+++ b/pystreed/base.py
@@ -105,7 +105,6 @@ class BaseSTreeDSolver(BaseEstimator):
         self.n_thresholds = n_thresholds
         self.n_categories = n_categories
         
-        self.fit_result = None
         self._solver = None
         self._label_type = np.int32
         self.binarizer_ = None
@@ -254,6 +253,10 @@ class BaseSTreeDSolver(BaseEstimator):
         Raises:
             ValueError: If x or y is None or if they have different number of rows.
         """
+        # Forget the result of a previous fit
+        for attribute in ("fit_result", "tree_"):
+            if hasattr(self, attribute): delattr(self, attribute)
+
         # Validate params and data
         self._validate_params()
         X = self._binarize_data(X, y, categorical)
-- 
2.43.0


From 363bc0ad8e36eee2158fc7ca9447c6167ff32508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:56:20 +0000
Subject: [PATCH 25/74] fix: do not reuse terminal solver results when
 branching costs depend on the branch

---
 src/solver/cost_combiner.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/cost_combiner.cpp b/src/solver/cost_combiner.cpp
index b68025e..22c7a49 100644
--- a/src/solver/cost_combiner.cpp
+++ b/src/solver/cost_combiner.cpp
@@ -19,7 +19,8 @@ namespace STreeD {
 			data_add.ResetReserve(data);
 			data_remove.ResetReserve(data);
 			BinaryDataDifferenceComputer::ComputeDifference(this->data, data, data_add, data_remove);
-			if (data_add.Size() == 0 && data_remove.Size() == 0 && (num_nodes == this->num_nodes || !OT::terminal_filter)) return false;
+			const bool context_dependent_costs = OT::has_branching_costs && !OT::constant_branching_costs; // then the same data may have other costs in another branch
+			if (data_add.Size() == 0 && data_remove.Size() == 0 && (num_nodes == this->num_nodes || !OT::terminal_filter) && !context_dependent_costs) return false;
 		}
 		
 		this->data = data;
-- 
2.43.0


From 7fe6677fa2e17d8e5d020d100b32fe09d2793fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:30:33 +0000
Subject: [PATCH 26/74] fix: clear the group scores of relaxed root solutions
 so that they remain valid lower bounds

---
 src/tasks/eq_opp.cpp         | 2 ++
 src/tasks/group_fairness.cpp | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tasks/eq_opp.cpp b/src/tasks/eq_opp.cpp
index 5724922..9920cd6 100644
--- a/src/tasks/eq_opp.cpp
+++ b/src/tasks/eq_opp.cpp
@@ -92,6 +92,8 @@ namespace STreeD {
 	}
 
 	void EqOpp::RelaxRootSolution(Node<EqOpp>& sol) const {
+		sol.solution.group0_score = 0;
+		sol.solution.group1_score = 0;
 		sol.solution.root_solution = true;
 	}
 
diff --git a/src/tasks/group_fairness.cpp b/src/tasks/group_fairness.cpp
index 3988e5b..44b689b 100644
--- a/src/tasks/group_fairness.cpp
+++ b/src/tasks/group_fairness.cpp
@@ -91,8 +91,8 @@ namespace STreeD {
 	}
 
 	void GroupFairness::RelaxRootSolution(Node<GroupFairness>& sol) const {
-		//sol.solution.group0_score = 0;
-		//sol.solution.group1_score = 0;
+		sol.solution.group0_score = 0;
+		sol.solution.group1_score = 0;
 		sol.solution.root_solution = true;
 	}
 
-- 
2.43.0


From 4cbeaa1391595834f8df39bf925e0cf543efabb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:30:33 +0000
Subject: [PATCH 27/74] fix: remember which upper bound pruned a cached set of
 solutions

Sets of solutions that were pruned by an upper bound were cached as complete and reused under other upper bounds.
---
 include/solver/branch_cache.h       |  4 +--
 include/solver/cache.h              |  4 +--
 include/solver/cache_entry.h        | 55 +++++++++++++++++++++++------
 include/solver/dataset_cache.h      |  4 +--
 include/solver/optimization_utils.h |  7 +++-
 src/solver/branch_cache.cpp         | 15 ++++----
 src/solver/cache.cpp                | 12 +++----
 src/solver/cost_combiner.cpp        |  2 +-
 src/solver/dataset_cache.cpp        | 14 ++++----
 src/solver/solver.cpp               | 39 +++++++++++++-------
 10 files changed, 105 insertions(+), 51 deletions(-)

diff --git a/include/solver/branch_cache.h b/include/solver/branch_cache.h
index f477313..b9f6dbc 100644
--- a/include/solver/branch_cache.h
+++ b/include/solver/branch_cache.h
@@ -23,8 +23,8 @@ namespace STreeD {
 
 		//related to storing/retriving optimal branches
 		bool IsOptimalAssignmentCached(ADataView&, const Branch& branch, int depth, int num_nodes);
-		void StoreOptimalBranchAssignment(ADataView&, const Branch& branch, SolContainer& optimal_solutions, int depth, int num_nodes);
-		SolContainer RetrieveOptimalAssignment(ADataView&, const Branch& branch, int depth, int num_nodes);
+		void StoreOptimalBranchAssignment(ADataView&, const Branch& branch, SolContainer& optimal_solutions, int depth, int num_nodes, const SolContainer& UB);
+		SolContainer RetrieveOptimalAssignment(ADataView&, const Branch& branch, int depth, int num_nodes, const SolContainer* UB = nullptr);
 		void TransferAssignmentsForEquivalentBranches(const ADataView&, const Branch& branch_source, const ADataView&, const Branch& branch_destination);//this updates branch_destination with all solutions from branch_source. Should only be done if the branches are equivalent.
 
 		//related to storing/retrieving lower bounds
diff --git a/include/solver/cache.h b/include/solver/cache.h
index 483f47a..f829f07 100644
--- a/include/solver/cache.h
+++ b/include/solver/cache.h
@@ -24,8 +24,8 @@ namespace STreeD {
 		}
 
 		bool IsOptimalAssignmentCached(ADataView& data, const Branch& branch, int depth, int num_nodes);
-		void StoreOptimalBranchAssignment(ADataView& data, const Branch& branch, SolContainer& opt_sols, int depth, int num_nodes);
-		SolContainer RetrieveOptimalAssignment(ADataView& data, const Branch& branch, int depth, int num_nodes);
+		void StoreOptimalBranchAssignment(ADataView& data, const Branch& branch, SolContainer& opt_sols, int depth, int num_nodes, const SolContainer& UB);
+		SolContainer RetrieveOptimalAssignment(ADataView& data, const Branch& branch, int depth, int num_nodes, const SolContainer* UB = nullptr);
 		
 		void TransferAssignmentsForEquivalentBranches(const ADataView&, const Branch& branch_source, const ADataView&, const Branch& branch_destination);//this updates branch_destination with all solutions from branch_source. Should only be done if the branches are equivalent.
 
diff --git a/include/solver/cache_entry.h b/include/solver/cache_entry.h
index b46e9c3..48fa984 100644
--- a/include/solver/cache_entry.h
+++ b/include/solver/cache_entry.h
@@ -19,13 +19,12 @@ namespace STreeD {
 
 		}
 
-		CacheEntry(int depth, int num_nodes, const SolContainer& solutions) :
-			optimal_solutions(solutions),
-			lower_bound(solutions),
+		CacheEntry(int depth, int num_nodes, const SolContainer& solutions, const SolContainer& UB) :
 			depth(depth),
 			num_nodes(num_nodes) {
 			runtime_assert(depth <= num_nodes);
-			runtime_assert(!CheckEmptySol<OT>(solutions));
+			lower_bound = InitializeSol<OT>(true);
+			SetOptimalSolutions(solutions, UB);
 		}
 
 		SolContainer GetOptimalSolution() const {
@@ -36,22 +35,56 @@ namespace STreeD {
 
 		inline const SolContainer& GetLowerBound() const { return lower_bound; }
 
-		void SetOptimalSolutions(const SolContainer& optimal_solutions) {
-			runtime_assert(!IsOptimal());
+		/*
+		* Set the optimal solution(s), found while searching with upper bound UB
+		*/
+		void SetOptimalSolutions(const SolContainer& optimal_solutions, const SolContainer& UB) {
 			runtime_assert(!CheckEmptySol<OT>(optimal_solutions));
-			this->optimal_solutions = optimal_solutions;
-			if (!CheckEmptySol<OT>(this->optimal_solutions)) {
-				lower_bound = optimal_solutions;
+			if constexpr (OT::total_order) {
+				runtime_assert(!IsOptimal());
+				this->optimal_solutions = optimal_solutions;
+				if (!CheckEmptySol<OT>(this->optimal_solutions)) {
+					lower_bound = optimal_solutions;
+				}
+			} else {
+				// Keep solutions found with another UB
+				auto all_solutions = CopySol<OT>(optimal_solutions);
+				if (IsOptimal()) AddSols<OT>(all_solutions, this->optimal_solutions);
+				SolClearTemp<OT>(all_solutions);
+				this->optimal_solutions = all_solutions;
+				// Solutions dominated by the UB are missing, unless a found solution dominates that part of the UB
+				pruned = InitializeSol<OT>();
+				for (const auto& sol : UB->GetSolutions()) {
+					if (!all_solutions->Dominates(sol, false)) AddSol<OT>(pruned, sol);
+				}
+				SolClearTemp<OT>(pruned);
+				auto new_lower_bound = CopySol<OT>(all_solutions);
+				AddSols<OT>(new_lower_bound, pruned);
+				SolClearTemp<OT>(new_lower_bound);
+				AddSolsInv<OT>(lower_bound, new_lower_bound);
 			}
 		}
 
 		void UpdateLowerBound(const SolContainer& lower_bound) {
-			runtime_assert(!IsOptimal());
+			if (OT::total_order && IsOptimal()) return;
 			AddSolsInv<OT>(this->lower_bound, lower_bound);
 		}
 
 		inline bool IsOptimal() const { return !CheckEmptySol<OT>(optimal_solutions); }
 
+		/*
+		* Returns true iff the solutions in this entry are also complete when searching with upper bound UB
+		*/
+		bool IsOptimalFor(const SolContainer& UB) const {
+			if (!IsOptimal()) return false;
+			if constexpr (!OT::total_order) {
+				for (const auto& sol : pruned->GetSolutions()) {
+					if (!UB->Dominates(sol, false)) return false;
+				}
+			}
+			return true;
+		}
+
 		inline int GetNodeBudget() const { return num_nodes; }
 
 		inline int GetDepthBudget() const { return depth; }
@@ -59,6 +92,8 @@ namespace STreeD {
 	private:
 		SolContainer optimal_solutions;
 		SolContainer lower_bound;
+		// The part of the UB that may have pruned solutions that are not in optimal_solutions (partially ordered tasks only)
+		typename std::conditional<OT::total_order, bool, SolContainer>::type pruned{};
 		int depth;
 		int num_nodes;
 	};
diff --git a/include/solver/dataset_cache.h b/include/solver/dataset_cache.h
index 9a33ed9..885a236 100644
--- a/include/solver/dataset_cache.h
+++ b/include/solver/dataset_cache.h
@@ -21,8 +21,8 @@ namespace STreeD {
 
 		//related to storing/retriving optimal branches
 		bool IsOptimalAssignmentCached(ADataView&, const Branch& branch, int depth, int num_nodes);
-		void StoreOptimalBranchAssignment(ADataView&, const Branch& branch, SolContainer opt_sols, int depth, int num_nodes);
-		SolContainer RetrieveOptimalAssignment(ADataView&, const Branch& branch, int depth, int num_nodes);
+		void StoreOptimalBranchAssignment(ADataView&, const Branch& branch, SolContainer opt_sols, int depth, int num_nodes, const SolContainer& UB);
+		SolContainer RetrieveOptimalAssignment(ADataView&, const Branch& branch, int depth, int num_nodes, const SolContainer* UB = nullptr);
 		//void TransferAssignmentsForEquivalentBranches(const ADataView&, const Branch& branch_source, const ADataView&, const Branch& branch_destination);//this updates branch_destination with all solutions from branch_source. Should only be done if the branches are equivalent.
 
 		//related to storing/retrieving lower bounds
diff --git a/include/solver/optimization_utils.h b/include/solver/optimization_utils.h
index 8947a86..8eb3624 100644
--- a/include/solver/optimization_utils.h
+++ b/include/solver/optimization_utils.h
@@ -153,7 +153,12 @@ namespace STreeD {
 		if constexpr (OT::total_order) {
 			if (sols.solution > container.solution) container = sols;
 		} else {
-			container->AddInv(*(sols.get()));
+			// Every solution is dominated by some element of both lower bounds, but not necessarily by some
+			// element of a mix of both. Therefore, only replace the lower bound when the other is tighter
+			for (const auto& sol : sols->GetSolutions()) {
+				if (!container->Dominates(sol, false)) return;
+			}
+			if (sols->Size() > 0) container = CopySol<OT>(sols);
 		}
 	}
 
diff --git a/src/solver/branch_cache.cpp b/src/solver/branch_cache.cpp
index 1d8ff7b..f1e5210 100644
--- a/src/solver/branch_cache.cpp
+++ b/src/solver/branch_cache.cpp
@@ -24,7 +24,7 @@ namespace STreeD {
 	}
 
 	template <class OT>
-	void BranchCache<OT>::StoreOptimalBranchAssignment(ADataView& data, const Branch& branch, BranchCache<OT>::SolContainer& optimal_solutions, int depth, int num_nodes) {
+	void BranchCache<OT>::StoreOptimalBranchAssignment(ADataView& data, const Branch& branch, BranchCache<OT>::SolContainer& optimal_solutions, int depth, int num_nodes, const typename BranchCache<OT>::SolContainer& UB) {
 		runtime_assert(depth <= num_nodes && num_nodes > 0);
 
 		SolClearTemp<OT>(optimal_solutions);
@@ -42,7 +42,7 @@ namespace STreeD {
 			CacheEntryVector<OT> vector_entry;
 			for (int node_budget = sol_num_nodes; node_budget <= num_nodes; node_budget++) {
 				for (int depth_budget = optimal_node_depth; depth_budget <= std::min(depth, node_budget); depth_budget++) {
-					vector_entry.push_back({ depth_budget, node_budget, optimal_solutions });
+					vector_entry.push_back({ depth_budget, node_budget, optimal_solutions, UB });
 				}
 			}
 			cache[branch.Depth()].insert(std::pair<Branch, CacheEntryVector<OT> >(branch, vector_entry));
@@ -67,7 +67,7 @@ namespace STreeD {
 					runtime_assert(!entry.IsOptimal() || entry.GetOptimalValue() == optimal_node.Misclassifications());*/
 
 					budget_seen[entry.GetNodeBudget()][entry.GetDepthBudget()] = true;
-					if (!entry.IsOptimal()) { entry.SetOptimalSolutions(optimal_solutions); }
+					if (!OT::total_order || !entry.IsOptimal()) { entry.SetOptimalSolutions(optimal_solutions, UB); }
 					runtime_assert(entry.GetDepthBudget() <= entry.GetNodeBudget()); //fix the case when it turns out that more nodes do not give a better result...e.g., depth 4 and num nodes 4, but a solution with three nodes found...that solution is then optimal for depth 3 as well...need to update but lazy now
 				}
 			}
@@ -76,7 +76,7 @@ namespace STreeD {
 			for (int node_budget = sol_num_nodes; node_budget <= num_nodes; node_budget++) {
 				for (int depth_budget = optimal_node_depth; depth_budget <= std::min(depth, node_budget); depth_budget++) {
 					if (!budget_seen[node_budget][depth_budget]) {
-						CacheEntry<OT> entry(depth_budget, node_budget, optimal_solutions);
+						CacheEntry<OT> entry(depth_budget, node_budget, optimal_solutions, UB);
 						iter_vector_entry->second.push_back(entry);
 						runtime_assert(entry.GetDepthBudget() <= entry.GetNodeBudget()); //todo no need for this assert
 					}
@@ -128,7 +128,7 @@ namespace STreeD {
 	}
 
 	template <class OT>
-	typename BranchCache<OT>::SolContainer BranchCache<OT>::RetrieveOptimalAssignment(ADataView& data, const Branch& branch, int depth, int num_nodes) {
+	typename BranchCache<OT>::SolContainer BranchCache<OT>::RetrieveOptimalAssignment(ADataView& data, const Branch& branch, int depth, int num_nodes, const typename BranchCache<OT>::SolContainer* UB) {
 		auto& hashmap = cache[branch.Depth()];
 				
 		auto iter = hashmap.find(branch);
@@ -136,7 +136,7 @@ namespace STreeD {
 
 		auto& entries = iter->second.entries;
 		for (CacheEntry<OT>& entry : entries) {
-			if (entry.GetDepthBudget() == depth && entry.GetNodeBudget() == num_nodes && entry.IsOptimal()) {
+			if (entry.GetDepthBudget() == depth && entry.GetNodeBudget() == num_nodes && (UB == nullptr ? entry.IsOptimal() : entry.IsOptimalFor(*UB))) {
 				return entry.GetOptimalSolution();
 			}
 		}
@@ -164,8 +164,7 @@ namespace STreeD {
 				//If the new lower bound is found with more relaxed discrimination budget, 
 				// yet it has a higher lower-bound, update this entry
 				if (entry.GetDepthBudget() == depth && entry.GetNodeBudget() == num_nodes) {
-					if(!entry.IsOptimal())
-						entry.UpdateLowerBound(lower_bound);
+					entry.UpdateLowerBound(lower_bound);
 					found_corresponding_entry = true;
 					break;
 				}
diff --git a/src/solver/cache.cpp b/src/solver/cache.cpp
index c8524b2..89d99f4 100644
--- a/src/solver/cache.cpp
+++ b/src/solver/cache.cpp
@@ -14,21 +14,21 @@ namespace STreeD {
 	}
 
 	template <class OT>
-	void Cache<OT>::StoreOptimalBranchAssignment(ADataView& data, const Branch& branch, SolContainer& opt_sols, int depth, int num_nodes) {
+	void Cache<OT>::StoreOptimalBranchAssignment(ADataView& data, const Branch& branch, SolContainer& opt_sols, int depth, int num_nodes, const typename Cache<OT>::SolContainer& UB) {
 		if (!use_optimal_caching) return;
-		if (use_branch_caching) branch_cache.StoreOptimalBranchAssignment(data, branch, opt_sols, depth, num_nodes);
-		if (use_dataset_caching) dataset_cache.StoreOptimalBranchAssignment(data, branch, opt_sols, depth, num_nodes);
+		if (use_branch_caching) branch_cache.StoreOptimalBranchAssignment(data, branch, opt_sols, depth, num_nodes, UB);
+		if (use_dataset_caching) dataset_cache.StoreOptimalBranchAssignment(data, branch, opt_sols, depth, num_nodes, UB);
 	}
 
 	template <class OT>
-	typename Cache<OT>::SolContainer Cache<OT>::RetrieveOptimalAssignment(ADataView& data, const Branch& branch, int depth, int num_nodes) {
+	typename Cache<OT>::SolContainer Cache<OT>::RetrieveOptimalAssignment(ADataView& data, const Branch& branch, int depth, int num_nodes, const typename Cache<OT>::SolContainer* UB) {
 		if (!use_optimal_caching) return empty_sol;
 		if (use_branch_caching) {
-			auto result = branch_cache.RetrieveOptimalAssignment(data, branch, depth, num_nodes);
+			auto result = branch_cache.RetrieveOptimalAssignment(data, branch, depth, num_nodes, UB);
 			if (!CheckEmptySol<OT>(result)) return result;
 		}
 		if (use_dataset_caching) {
-			auto result = dataset_cache.RetrieveOptimalAssignment(data, branch, depth, num_nodes);
+			auto result = dataset_cache.RetrieveOptimalAssignment(data, branch, depth, num_nodes, UB);
 			if (!CheckEmptySol<OT>(result)) return result;
 		}
 		return empty_sol;
diff --git a/src/solver/cost_combiner.cpp b/src/solver/cost_combiner.cpp
index 22c7a49..940d375 100644
--- a/src/solver/cost_combiner.cpp
+++ b/src/solver/cost_combiner.cpp
@@ -20,7 +20,7 @@ namespace STreeD {
 			data_remove.ResetReserve(data);
 			BinaryDataDifferenceComputer::ComputeDifference(this->data, data, data_add, data_remove);
 			const bool context_dependent_costs = OT::has_branching_costs && !OT::constant_branching_costs; // then the same data may have other costs in another branch
-			if (data_add.Size() == 0 && data_remove.Size() == 0 && (num_nodes == this->num_nodes || !OT::terminal_filter) && !context_dependent_costs) return false;
+			if (data_add.Size() == 0 && data_remove.Size() == 0 && !OT::terminal_filter && !context_dependent_costs) return false;
 		}
 		
 		this->data = data;
diff --git a/src/solver/dataset_cache.cpp b/src/solver/dataset_cache.cpp
index 5fa59df..36e47fe 100644
--- a/src/solver/dataset_cache.cpp
+++ b/src/solver/dataset_cache.cpp
@@ -33,7 +33,7 @@ namespace STreeD {
 	}
 
 	template <class OT>
-	void DatasetCache<OT>::StoreOptimalBranchAssignment(ADataView& data, const Branch& b, DatasetCache<OT>::SolContainer optimal_solutions, int depth, int num_nodes) {
+	void DatasetCache<OT>::StoreOptimalBranchAssignment(ADataView& data, const Branch& b, DatasetCache<OT>::SolContainer optimal_solutions, int depth, int num_nodes, const typename DatasetCache<OT>::SolContainer& UB) {
 		runtime_assert(depth <= num_nodes && num_nodes > 0);
 
 		auto& hashmap = cache[data.Size()];
@@ -50,7 +50,7 @@ namespace STreeD {
 			CacheEntryVector<OT> vector_entry;
 			for (int node_budget = sol_num_nodes; node_budget <= num_nodes; node_budget++) {
 				for (int depth_budget = optimal_node_depth; depth_budget <= std::min(depth, node_budget); depth_budget++) {
-					vector_entry.push_back({ depth_budget, node_budget, optimal_solutions });
+					vector_entry.push_back({ depth_budget, node_budget, optimal_solutions, UB });
 				}
 			}
 			cache[data.Size()].insert(std::pair<ADataViewBitSet, CacheEntryVector<OT> >(bitsetview, vector_entry));
@@ -77,8 +77,8 @@ namespace STreeD {
 
 					{
 						budget_seen[entry.GetNodeBudget()][entry.GetDepthBudget()] = true;
-						if (!entry.IsOptimal()) {
-							entry.SetOptimalSolutions(optimal_solutions);
+						if (!OT::total_order || !entry.IsOptimal()) {
+							entry.SetOptimalSolutions(optimal_solutions, UB);
 						}
 					}
 
@@ -90,7 +90,7 @@ namespace STreeD {
 			for (int node_budget = sol_num_nodes; node_budget <= num_nodes; node_budget++) {
 				for (int depth_budget = optimal_node_depth; depth_budget <= std::min(depth, node_budget); depth_budget++) {
 					if (!budget_seen[node_budget][depth_budget]) {
-						CacheEntry<OT> entry(depth_budget, node_budget, optimal_solutions);
+						CacheEntry<OT> entry(depth_budget, node_budget, optimal_solutions, UB);
 						iter_vector_entry->second.push_back(entry);
 						runtime_assert(entry.GetDepthBudget() <= entry.GetNodeBudget()); //todo no need for this assert
 					}
@@ -113,7 +113,7 @@ namespace STreeD {
 	}*/
 
 	template <class OT>
-	typename DatasetCache<OT>::SolContainer DatasetCache<OT>::RetrieveOptimalAssignment(ADataView& data, const Branch& b, int depth, int num_nodes) {
+	typename DatasetCache<OT>::SolContainer DatasetCache<OT>::RetrieveOptimalAssignment(ADataView& data, const Branch& b, int depth, int num_nodes, const typename DatasetCache<OT>::SolContainer* UB) {
 		auto& hashmap = cache[data.Size()];
 		auto& bitsetview = data.GetBitSetView();
 		auto iter = FindIterator(bitsetview, b);// hashmap.find(data);
@@ -122,7 +122,7 @@ namespace STreeD {
 
 		auto& entries = iter->second.entries;
 		for (CacheEntry<OT>& entry : entries) {
-			if (entry.GetDepthBudget() == depth && entry.GetNodeBudget() == num_nodes && entry.IsOptimal()) {
+			if (entry.GetDepthBudget() == depth && entry.GetNodeBudget() == num_nodes && (UB == nullptr ? entry.IsOptimal() : entry.IsOptimalFor(*UB))) {
 				return entry.GetOptimalSolution();
 			}
 		}
diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 25c8399..d47d979 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -290,7 +290,7 @@ namespace STreeD {
 
 		// Check Cache
 		{
-			auto results = cache->RetrieveOptimalAssignment(data, branch, max_depth, num_nodes);
+			auto results = cache->RetrieveOptimalAssignment(data, branch, max_depth, num_nodes, &UB);
 			if (!CheckEmptySol<OT>(results)) {
 				return results;
 			}
@@ -303,7 +303,7 @@ namespace STreeD {
 				// If an optimal solution was found in the process, return it
 				bool updated_optimal_solution = UpdateCacheUsingSimilarity(data, branch, max_depth, num_nodes);
 				if (updated_optimal_solution) {
-					auto results = cache->RetrieveOptimalAssignment(data, branch, max_depth, num_nodes);
+					auto results = cache->RetrieveOptimalAssignment(data, branch, max_depth, num_nodes, &UB);
 					if (!CheckEmptySol<OT>(results)) {
 						//stats.num_cache_hit_optimality++;
 						return results;
@@ -520,9 +520,9 @@ namespace STreeD {
 		// Or update the LB for this branch
 		SetSolSizeBudget<OT>(solutions, max_depth, num_nodes);
 		if (!CheckEmptySol<OT>(solutions)) {
-			cache->StoreOptimalBranchAssignment(data, branch, solutions, max_depth, num_nodes);
+			cache->StoreOptimalBranchAssignment(data, branch, solutions, max_depth, num_nodes, orgUB);
 		} else {
-			if (SolutionsEqual<OT>(infeasible_lb, InitializeSol<OT>())) {
+			if (!OT::total_order || SolutionsEqual<OT>(infeasible_lb, InitializeSol<OT>())) {
 				infeasible_lb = orgUB;
 			} else {
 				// The leaf node is pruned by the UB, but it may still be cheaper than every split
@@ -533,7 +533,8 @@ namespace STreeD {
 			cache->UpdateLowerBound(data, branch, infeasible_lb, max_depth, num_nodes);
 		}
 		if constexpr (OT::element_additive) {
-			similarity_lower_bound_computer->UpdateArchive(data, branch, max_depth);
+			// A set of root solutions is not a front, because dominance is relaxed in the root node
+			if (OT::total_order || branch.Depth() > 0) similarity_lower_bound_computer->UpdateArchive(data, branch, max_depth);
 		}
 
 		return solutions;
@@ -564,32 +565,34 @@ namespace STreeD {
 		stats.time_in_terminal_node += double(clock() - clock_start) / CLOCKS_PER_SEC;
 
 		// Store solutions in the cache for different node budgets
-		if (!cache->IsOptimalAssignmentCached(data, branch, 1, 1)) {
+		const auto terminal_UB = OT::terminal_filter ? CopySol<OT>(UB) : InitializeSol<OT>(); // The UB used to prune solutions
+		if (!OT::total_order || !cache->IsOptimalAssignmentCached(data, branch, 1, 1)) {
 			auto& one_node_solutions = results.one_node_solutions;
 			if (!CheckEmptySol<OT>(one_node_solutions)) {
-				cache->StoreOptimalBranchAssignment(data, branch, one_node_solutions, 1, 1);
+				cache->StoreOptimalBranchAssignment(data, branch, one_node_solutions, 1, 1, terminal_UB);
 			} else {
 				cache->UpdateLowerBound(data, branch, UB, 1, 1);
 			}
 		}
-		if (num_nodes > 1 && !cache->IsOptimalAssignmentCached(data, branch, 2, 2)) {
+		if (num_nodes > 1 && (!OT::total_order || !cache->IsOptimalAssignmentCached(data, branch, 2, 2))) {
 			auto& two_nodes_solutions = results.two_nodes_solutions;
 			if (!CheckEmptySol<OT>(two_nodes_solutions)) {
-				cache->StoreOptimalBranchAssignment(data, branch, two_nodes_solutions, 2, 2);
+				cache->StoreOptimalBranchAssignment(data, branch, two_nodes_solutions, 2, 2, terminal_UB);
 			} else {
 				cache->UpdateLowerBound(data, branch, UB, 2, 2);
 			}
 		}
-		if (num_nodes > 1 && !cache->IsOptimalAssignmentCached(data, branch, 2, 3)) {
+		if (num_nodes > 1 && (!OT::total_order || !cache->IsOptimalAssignmentCached(data, branch, 2, 3))) {
 			auto& three_nodes_solutions = results.three_nodes_solutions;
 			if (!CheckEmptySol<OT>(three_nodes_solutions)) {
-				cache->StoreOptimalBranchAssignment(data, branch, three_nodes_solutions, 2, 3);
+				cache->StoreOptimalBranchAssignment(data, branch, three_nodes_solutions, 2, 3, terminal_UB);
 			} else {
 				cache->UpdateLowerBound(data, branch, UB, 2, 3);
 			}
 		}
 		if constexpr (OT::element_additive) {
-			similarity_lower_bound_computer->UpdateArchive(data, branch, max_depth);
+			// A set of root solutions is not a front, because dominance is relaxed in the root node
+			if (OT::total_order || branch.Depth() > 0) similarity_lower_bound_computer->UpdateArchive(data, branch, max_depth);
 		}
 
 		// Return solutions based on node budget
@@ -1088,6 +1091,18 @@ namespace STreeD {
 			auto branching_costs = GetBranchingCosts(data, context, sol.feature);
 			auto empty_final_sols = std::shared_ptr<Container<OT>>(nullptr);
 			Merge<true>(sol.feature, context, UB, left_sols, right_sols, branching_costs, empty_final_sols, &tree_node);
+			if (!tree_node.left_child.IsFeasible()) {
+				// The cached solutions may be pruned by an upper bound. If so, use all solutions
+				left_size = left_subtree_size;
+				right_size = right_subtree_size;
+				left_depth = std::min(max_depth - 1, left_size);
+				right_depth = std::min(max_depth - 1, right_size);
+				UBleft = InitializeSol<OT>();
+				UBright = InitializeSol<OT>();
+				left_sols = SolveSubTree(left_data, left_context, UBleft, left_depth, left_size);
+				right_sols = SolveSubTree(right_data, right_context, UBright, right_depth, right_size);
+				Merge<true>(sol.feature, context, UB, left_sols, right_sols, branching_costs, empty_final_sols, &tree_node);
+			}
 
 			runtime_assert(tree_node.left_child.IsFeasible());
 			runtime_assert(tree_node.right_child.IsFeasible());
-- 
2.43.0


From b86992b653dbfc893145482599ed1dde375bc939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:10 +0000
Subject: [PATCH 28/74] fix: return the intercept-only model when the penalty
 removes all coefficients

A leaf whose target is constant or uncorrelated with the continuous
features, or whose lasso penalty is large, was treated as infeasible.
---
 src/tasks/regression/piecewise_linear_regression.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tasks/regression/piecewise_linear_regression.cpp b/src/tasks/regression/piecewise_linear_regression.cpp
index 671d038..66795dc 100644
--- a/src/tasks/regression/piecewise_linear_regression.cpp
+++ b/src/tasks/regression/piecewise_linear_regression.cpp
@@ -337,7 +337,8 @@ namespace STreeD {
 		double gamma = N * ridge_penalty;
 
 		if (lambda >= lambda_max) {
-			return std::make_pair(LinearModel(), DBL_MAX);
+			// All coefficients are zero: the best model is the intercept
+			return std::make_pair(LinearModel(std::vector<double>(CF, 0.0), y_mu), std::max(0.0, _ysq_sum - N * y_mu * y_mu));
 		}
 		
 		b0 = 0; // Intercept should be zero after normalization
-- 
2.43.0


From 080629f258111d770ee0f7a76316e557f4e48695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:10 +0000
Subject: [PATCH 29/74] fix: reset a coefficient to zero when the lasso penalty
 removes it again

---
 src/tasks/regression/piecewise_linear_regression.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tasks/regression/piecewise_linear_regression.cpp b/src/tasks/regression/piecewise_linear_regression.cpp
index 66795dc..4646782 100644
--- a/src/tasks/regression/piecewise_linear_regression.cpp
+++ b/src/tasks/regression/piecewise_linear_regression.cpp
@@ -361,7 +361,11 @@ namespace STreeD {
 				}
 				//bj += b[j] * zj;
 				
-				if (std::abs(bj) < lambda) continue;
+				if (std::abs(bj) < lambda) {
+					if (old_bj != 0) significant_change = true;
+					b[j] = 0;
+					continue;
+				}
 				if (bj < 0) {
 					b[j] = (bj + lambda) / (zj + gamma);
 				} else {
-- 
2.43.0


From 7b85e816b1c2065f74e482dcfa6f7de42f5976af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:10 +0000
Subject: [PATCH 30/74] fix: do not divide by the zero standard deviation of a
 constant continuous feature

---
 src/tasks/regression/piecewise_linear_regression.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tasks/regression/piecewise_linear_regression.cpp b/src/tasks/regression/piecewise_linear_regression.cpp
index 4646782..61c1a20 100644
--- a/src/tasks/regression/piecewise_linear_regression.cpp
+++ b/src/tasks/regression/piecewise_linear_regression.cpp
@@ -135,6 +135,7 @@ namespace STreeD {
 			int CF = int(g_cf_mu.size());
 			std::vector<double> b(CF);
 			for (int j = 0; j < CF; j++) {
+				if (std::abs(g_cf_std[j]) < 1e-6) continue; // Constant features are not normalized and have a zero coefficient
 				b[j] = model.b[j] / g_cf_std[j];
 			}
 			double b0 = model.b0;
-- 
2.43.0


From 122ad0bd4887701a6f495a0df1efd24e7d10c44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:42 +0000
Subject: [PATCH 31/74] fix: do not use branching costs as lower bound when the
 leaf node was not evaluated

Piecewise and simple linear regression skip the expensive leaf node in the
sparse lower bound, so subtrees that are best left as a leaf were pruned.
---
 src/solver/solver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index d47d979..7364d5f 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -671,6 +671,8 @@ namespace STreeD {
 						break;
 					}
 				}
+				// Without the costs of not branching, the costs of branching are no lower bound
+				if (OT::expensive_leaf && max_depth_searched == 0) return;
 				// The whole search space up to max_depth_finished is only known to be exhausted for the root node
 				if (current_depth == 0) max_depth_searched = std::max(max_depth_searched, max_depth_finished);
 				int min_nodes_to_use = max_depth_searched + 1;
-- 
2.43.0


From b06a12feb6f099bb34559270f134496fd1641b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:48:08 +0000
Subject: [PATCH 32/74] fix: give the test data a slot for every label of the
 training data

Scoring data without instances of the last label read past the end of the
instances per label.
---
 src/solver/solver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 7364d5f..2f1c40b 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -1249,6 +1249,8 @@ namespace STreeD {
 	template <class OT>
 	void Solver<OT>::PreprocessTestData(const ADataView& org_test_data, ADataView& test_data) {
 		test_data = org_test_data;
+		// The last labels of the training data may be absent in the test data
+		if (test_data.NumLabels() < NumLabels()) test_data.GetMutableInstances().resize(NumLabels());
 		if constexpr (OT::preprocess_train_test_data) {
 			task->PreprocessTestData(test_data);
 		}
-- 
2.43.0


From 7efe20ed07b8a5c426de3a83b807653144fac545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:48:46 +0000
Subject: [PATCH 33/74] fix: compute test discrimination with the group sizes
 of the test data

The discrimination of a scored data set was computed with the group sizes
of the training data.
---
 include/tasks/eq_opp.h         |  6 +++---
 include/tasks/group_fairness.h |  6 +++---
 src/tasks/eq_opp.cpp           | 22 ++++++++++++++++++----
 src/tasks/group_fairness.cpp   | 24 ++++++++++++++++++++----
 4 files changed, 44 insertions(+), 14 deletions(-)

diff --git a/include/tasks/eq_opp.h b/include/tasks/eq_opp.h
index 4ec6d43..d6a5e49 100644
--- a/include/tasks/eq_opp.h
+++ b/include/tasks/eq_opp.h
@@ -78,9 +78,8 @@ namespace STreeD {
 		void InformTestData(const ADataView& test_data, const DataSummary& test_summary);
 
 		EqOppSol GetLeafCosts(const ADataView& data, const BranchContext& context, int label) const;
-		inline EqOppSol GetTestLeafCosts(const ADataView& data, const BranchContext& context, int label) const {
-			return GetLeafCosts(data, context, label);
-		}
+		// The test value has the number of positive predictions per group as group scores
+		EqOppSol GetTestLeafCosts(const ADataView& data, const BranchContext& context, int label) const;
 		void GetInstanceLeafD2Costs(const AInstance* instance, int org_label, int label, EqOppSol& costs, int multiplier) const;
 
 		inline bool IsD2ZeroCost(const EqOppSol& d2costs) const { return false; }
@@ -94,6 +93,7 @@ namespace STreeD {
 		double ComputeTrainScore(const EqOppSol& train_value) const;
 		double ComputeTrainTestScore(const EqOppSol& test_value) const;
 		double ComputeTestTestScore(const EqOppSol& test_value) const;
+		double ComputeTestScore(const EqOppSol& value, int size, int group0_size, int group1_size) const;
 
 		inline static EqOppSol Add(const EqOppSol& left, const EqOppSol& right) {
 			return left + right;
diff --git a/include/tasks/group_fairness.h b/include/tasks/group_fairness.h
index 2e67cd8..7636a9d 100644
--- a/include/tasks/group_fairness.h
+++ b/include/tasks/group_fairness.h
@@ -78,9 +78,8 @@ namespace STreeD {
 		void InformTestData(const ADataView& test_data, const DataSummary& test_summary);
 
 		GroupFairnessSol GetLeafCosts(const ADataView& data, const BranchContext& context, int label) const;
-		inline GroupFairnessSol GetTestLeafCosts(const ADataView& data, const BranchContext& context, int label) const {
-			return GetLeafCosts(data, context, label);
-		}
+		// The test value has the number of positive predictions per group as group scores
+		GroupFairnessSol GetTestLeafCosts(const ADataView& data, const BranchContext& context, int label) const;
 		void GetInstanceLeafD2Costs(const AInstance* instance, int org_label, int label, GroupFairnessSol& costs, int multiplier) const;
 		
 		inline bool IsD2ZeroCost(const GroupFairnessSol& d2costs) const { return false; }
@@ -94,6 +93,7 @@ namespace STreeD {
 		double ComputeTrainScore(const GroupFairnessSol& train_value) const;
 		double ComputeTrainTestScore(const GroupFairnessSol& test_value) const;
 		double ComputeTestTestScore(const GroupFairnessSol& test_value) const;
+		double ComputeTestScore(const GroupFairnessSol& value, int size, int group0_size, int group1_size) const;
 
 		inline static GroupFairnessSol Add(const GroupFairnessSol& left, const GroupFairnessSol& right) {
 			return left + right;
diff --git a/src/tasks/eq_opp.cpp b/src/tasks/eq_opp.cpp
index 9920cd6..17c644f 100644
--- a/src/tasks/eq_opp.cpp
+++ b/src/tasks/eq_opp.cpp
@@ -49,6 +49,15 @@ namespace STreeD {
 				});
 	}
 
+	EqOppSol EqOpp::GetTestLeafCosts(const ADataView& data, const BranchContext& context, int label) const {
+		if (!label) return EqOppSol({ data.NumInstancesForLabel(1), 0.0, 0.0 });
+		int group0_size = 0;
+		for (auto& dp : data.GetInstancesForLabel(1)) {
+			group0_size += dp->IsFeaturePresent(0) ? 0 : 1; // Zeroth feature is the sensitive feature
+		}
+		return EqOppSol({ data.NumInstancesForLabel(0), double(group0_size), double(data.NumInstancesForLabel(1) - group0_size) });
+	}
+
 	void EqOpp::GetInstanceLeafD2Costs(const AInstance* instance, int org_label, int label, EqOppSol& costs, int multiplier) const {
 		int label1 = org_label == 1 ? 1 : 0;
 		int group0 = instance->IsFeaturePresent(0) ? 0 : 1;
@@ -78,15 +87,20 @@ namespace STreeD {
 	}
 
 	double EqOpp::ComputeTrainTestScore(const EqOppSol& train_value) const {
-		return ComputeTrainScore(train_value);
+		return ComputeTestScore(train_value, train_summary.size, train_group0_size, train_group1_size);
 	}
 
 	double EqOpp::ComputeTestTestScore(const EqOppSol& test_value) const {
 		runtime_assert(test_summary.instances_per_class.size() == 2);
-		
-		double disc = std::max(test_value.group0_score, test_value.group1_score) - 1;
+		return ComputeTestScore(test_value, test_summary.size, test_group0_size, test_group1_size);
+	}
+
+	double EqOpp::ComputeTestScore(const EqOppSol& value, int size, int group0_size, int group1_size) const {
+		// There is no discrimination between groups if one of them is absent
+		double disc = group0_size == 0 || group1_size == 0 ? 0.0
+			: std::abs(value.group0_score / group0_size - value.group1_score / group1_size);
 		if (disc <= discrimination_limit + EqOppSol::limit_tolerance)
-			return ((double)(test_summary.size - test_value.misclassifications)) / ((double)test_summary.size);
+			return ((double)(size - value.misclassifications)) / ((double)size);
 		else
 			return 0;
 	}
diff --git a/src/tasks/group_fairness.cpp b/src/tasks/group_fairness.cpp
index 44b689b..80cc4d5 100644
--- a/src/tasks/group_fairness.cpp
+++ b/src/tasks/group_fairness.cpp
@@ -51,6 +51,17 @@ namespace STreeD {
 				});
 	}
 
+	GroupFairnessSol GroupFairness::GetTestLeafCosts(const ADataView& data, const BranchContext& context, int label) const {
+		if (!label) return GroupFairnessSol({ data.NumInstancesForLabel(1), 0.0, 0.0 });
+		int group0_size = 0;
+		for (int k = 0; k < data.NumLabels(); k++) {
+			for (auto& dp : data.GetInstancesForLabel(k)) {
+				group0_size += dp->IsFeaturePresent(0) ? 0 : 1; // Zeroth feature is the sensitive feature
+			}
+		}
+		return GroupFairnessSol({ data.NumInstancesForLabel(0), double(group0_size), double(data.Size() - group0_size) });
+	}
+
 	void GroupFairness::GetInstanceLeafD2Costs(const AInstance* instance, int org_label, int label, GroupFairnessSol& costs, int multiplier) const {
 		int group0 = instance->IsFeaturePresent(0) ? 0 : 1;
 		costs = label ?
@@ -77,15 +88,20 @@ namespace STreeD {
 	}
 
 	double GroupFairness::ComputeTrainTestScore(const GroupFairnessSol& train_value) const {
-		return ComputeTrainScore(train_value);
+		return ComputeTestScore(train_value, train_summary.size, train_group0_size, train_group1_size);
 	}
 
 	double GroupFairness::ComputeTestTestScore(const GroupFairnessSol& test_value) const {
 		runtime_assert(test_summary.instances_per_class.size() == 2);
-		
-		double disc = std::max(test_value.group0_score, test_value.group1_score) - 1;
+		return ComputeTestScore(test_value, test_summary.size, test_group0_size, test_group1_size);
+	}
+
+	double GroupFairness::ComputeTestScore(const GroupFairnessSol& value, int size, int group0_size, int group1_size) const {
+		// There is no discrimination between groups if one of them is absent
+		double disc = group0_size == 0 || group1_size == 0 ? 0.0
+			: std::abs(value.group0_score / group0_size - value.group1_score / group1_size);
 		if (disc <= discrimination_limit + GroupFairnessSol::limit_tolerance)
-			return ((double)(test_summary.size - test_value.misclassifications)) / ((double)test_summary.size);
+			return ((double)(size - value.misclassifications)) / ((double)size);
 		else
 			return 0;
 	}
-- 
2.43.0


From b5e4168ef0dac0236d36b19966b1ba91abd65b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:48:46 +0000
Subject: [PATCH 34/74] fix: make the question length available for survival
 and linear regression trees

---
 pystreed/regression.py        |  5 +++++
 pystreed/survival_analysis.py | 22 ++++++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/pystreed/regression.py b/pystreed/regression.py
index d0d970d..ae162f7 100644
--- a/pystreed/regression.py
+++ b/pystreed/regression.py
@@ -264,6 +264,11 @@ class STreeDPiecewiseLinearRegressor(BaseSTreeDSolver):
         check_is_fitted(self, "fit_result")
         extra_data = self._get_continuous_columns(X, continuous_columns)
         return super().score(X, y_true, extra_data)
+
+    def get_question_length(self, X, y_true, continuous_columns=None):
+        check_is_fitted(self, "fit_result")
+        extra_data = self._get_continuous_columns(X, continuous_columns)
+        return super().get_question_length(X, y_true, extra_data)
     
     def _export_dot_leaf_node(self, fh, node, node_id, label_names, train_data):
         try:
diff --git a/pystreed/survival_analysis.py b/pystreed/survival_analysis.py
index f8df2b9..92f6033 100644
--- a/pystreed/survival_analysis.py
+++ b/pystreed/survival_analysis.py
@@ -142,6 +142,28 @@ class STreeDSurvivalAnalysis(BaseSTreeDSolver):
         events, times = check_array_survival(X, y_true)
         return super().score(X, times, events)
 
+    def get_question_length(self, X, y_true):
+        """
+        Computes the average question length for the given input feature data
+
+        Args:
+            x : array-like, shape = (n_samples, n_features)
+            Data matrix
+            
+            y : structured array, shape = (n_samples,)
+            A structured array containing the binary event indicator
+            as first field, and time of event or time of censoring as
+            second field.
+
+        Returns:
+            The question length
+        """
+        check_is_fitted(self, "fit_result")
+        if X.shape[0] != y_true.shape[0]:
+            raise ValueError('x and y have different number of rows')
+        events, times = check_array_survival(X, y_true)
+        return super().get_question_length(X, times, events)
+
     def predict(self, X, extra_data=None):
         """Predict risk score.
 
-- 
2.43.0


From da92f40f436408903fed198cfec8028361f0b0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:09 +0000
Subject: [PATCH 35/74] fix: reject labels and extra data that do not match the
 number of instances

The arrays were read past their end when they had fewer entries than there
are instances.
---
 src/bindings.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bindings.cpp b/src/bindings.cpp
index 0f7f7cd..a978c5e 100644
--- a/src/bindings.cpp
+++ b/src/bindings.cpp
@@ -58,6 +58,8 @@ void NumpyToSTreeDData(const py::array_t<int, py::array::c_style>& _X,
     auto y = _y.template unchecked<1>();
     const int num_instances = int(X.shape(0));
     const int num_features = int(X.shape(1));
+    if (y.size() > 0 && y.size() != num_instances) throw std::invalid_argument("The number of labels differs from the number of instances.");
+    if (extra_data.size() > 0 && extra_data.size() != size_t(num_instances)) throw std::invalid_argument("The size of the extra data differs from the number of instances.");
     
     std::vector<std::vector<const AInstance*>> instances_per_label;
     if (regression) instances_per_label.resize(1);
-- 
2.43.0


From 056a158e48c6a31059c0a9e880363a7db87800ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:09 +0000
Subject: [PATCH 36/74] fix: raise an error for negative class labels

A negative label was used as an index and crashed the interpreter.
---
 src/bindings.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bindings.cpp b/src/bindings.cpp
index a978c5e..4fd001b 100644
--- a/src/bindings.cpp
+++ b/src/bindings.cpp
@@ -67,6 +67,7 @@ void NumpyToSTreeDData(const py::array_t<int, py::array::c_style>& _X,
     std::vector<bool> v(num_features);
     for (py::size_t i = 0; i < num_instances; i++) {
         LT label = y.size() == 0 ? 0 : y(i);
+        if (!regression && label < 0) throw std::invalid_argument("Class labels should not be negative.");
         if(extra_data.size() > 0) {
             ed = extra_data[i];
         }
-- 
2.43.0


From 6b4288deb34ffdc47d77db4358aa699d45952edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:09 +0000
Subject: [PATCH 37/74] fix: report parameter errors as exceptions instead of
 ending the process

A parameter value outside its range, or a node limit combined with a cost
complexity, called exit() and thereby killed the Python interpreter.  The
command-line program still prints the error and exits with code 1.
---
 src/bindings.cpp                |  3 +--
 src/main.cpp                    |  5 ++++-
 src/utils/parameter_handler.cpp | 35 ++++++++++++++++++---------------
 3 files changed, 24 insertions(+), 19 deletions(-)

diff --git a/src/bindings.cpp b/src/bindings.cpp
index 4fd001b..157b69e 100644
--- a/src/bindings.cpp
+++ b/src/bindings.cpp
@@ -42,8 +42,7 @@ task_type get_task_type_code(std::string& task) {
     else if (task == "prescriptive-policy") return prescriptive_policy;
     else if (task == "survival-analysis") return survival_analysis;
     else {
-        std::cout << "Encountered unknown optimization task: " << task << std::endl;
-        exit(1);
+        throw std::invalid_argument("Encountered unknown optimization task: " + task);
     }
 }
 
diff --git a/src/main.cpp b/src/main.cpp
index 73a5d01..d1a397c 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -9,7 +9,7 @@ https://bitbucket.org/EmirD/murtree
 
 using namespace std;
 
-int main(int argc, char* argv[]) {
+int main(int argc, char* argv[]) try {
 	STreeD::ParameterHandler parameters = STreeD::ParameterHandler::DefineParameters();
 
 	if (argc > 1) {
@@ -130,5 +130,8 @@ int main(int argc, char* argv[]) {
 	delete solver;
 
 	cout << endl << "STreeD closed successfully!" << endl;
+} catch (const std::exception& e) {
+	std::cout << "Error: " << e.what() << std::endl;
+	return 1;
 }
 
diff --git a/src/utils/parameter_handler.cpp b/src/utils/parameter_handler.cpp
index 4dd8551..4ea5619 100644
--- a/src/utils/parameter_handler.cpp
+++ b/src/utils/parameter_handler.cpp
@@ -294,22 +294,24 @@ namespace STreeD {
         bool optional = parameters_string_[parameter_name].optional;
         if (optional && value == "") return;
         if (!allowed_values.empty() && std::find(allowed_values.begin(), allowed_values.end(), value) == allowed_values.end()) {
-            std::cout << "The passed value " << value << " is not in the list of allowed values for string parameter " << value << "\n";
-            std::cout << "Allowed values: ";
+            std::ostringstream message;
+            message << "The passed value " << value << " is not in the list of allowed values for string parameter " << parameter_name << "\n";
+            message << "Allowed values: ";
             for (size_t i = 0; i < allowed_values.size() - 1; i++) {
-                std::cout << allowed_values[i] << ", ";
+                message << allowed_values[i] << ", ";
             }
-            std::cout << allowed_values.back() << "\n";
-            exit(1);
+            message << allowed_values.back();
+            throw std::invalid_argument(message.str());
         }
     }
 
     void ParameterHandler::CheckIntegerParameter(const std::string& parameter_name, int64_t value) {
         if (parameters_integer_.count(parameter_name) == 0) { std::cout << "Need to define integer parameter " << parameter_name << " before it can be set!\n"; exit(1); }
         if (parameters_integer_[parameter_name].min_value > value || value > parameters_integer_[parameter_name].max_value) {
-            std::cout << "The passed value " << value << " is not in the allowed range for integer parameter " << parameter_name << "\n";
-            std::cout << "The allowed range is [" << parameters_integer_[parameter_name].min_value << ", " << parameters_integer_[parameter_name].max_value << "]\n";
-            exit(1);
+            std::ostringstream message;
+            message << "The passed value " << value << " is not in the allowed range for integer parameter " << parameter_name << "\n";
+            message << "The allowed range is [" << parameters_integer_[parameter_name].min_value << ", " << parameters_integer_[parameter_name].max_value << "]";
+            throw std::invalid_argument(message.str());
         }
     }
 
@@ -320,9 +322,10 @@ namespace STreeD {
     void ParameterHandler::CheckFloatParameter(const std::string& parameter_name, double value) {
         if (parameters_float_.count(parameter_name) == 0) { std::cout << "Need to define float parameter " << parameter_name << " before it can be set!\n"; exit(1); }
         if (parameters_float_[parameter_name].min_value > value || value > parameters_float_[parameter_name].max_value) {
-            std::cout << "The passed value " << value << " is not in the allowed range for float parameter " << parameter_name << "\n";
-            std::cout << "The allowed range is [" << parameters_float_[parameter_name].min_value << ", " << parameters_float_[parameter_name].max_value << "]\n";
-            exit(1);
+            std::ostringstream message;
+            message << "The passed value " << value << " is not in the allowed range for float parameter " << parameter_name << "\n";
+            message << "The allowed range is [" << parameters_float_[parameter_name].min_value << ", " << parameters_float_[parameter_name].max_value << "]";
+            throw std::invalid_argument(message.str());
         }
     }
 
@@ -330,16 +333,16 @@ namespace STreeD {
         int max_num_nodes_by_depth = int(1L << GetIntegerParameter("max-depth")) - 1;
         if (GetIntegerParameter("max-num-nodes") > max_num_nodes_by_depth)
         {
-            std::cout << "Error: The number of nodes exceeds the limit imposed by the depth!" << std::endl;
-            exit(1);
+            throw std::invalid_argument("The number of nodes exceeds the limit imposed by the depth!");
         }
 
         if (GetIntegerParameter("max-num-nodes") != max_num_nodes_by_depth && GetFloatParameter("cost-complexity") >= 1e-6) {
-            std::cout << "Error: Either set the number of nodes below the limited imposed by the maximum depth (" << max_num_nodes_by_depth
+            std::ostringstream message;
+            message << "Either set the number of nodes below the limited imposed by the maximum depth (" << max_num_nodes_by_depth
                 << ") or set the cost-complexity to non-zero, but not both. Current setting has max-num-nodes = "
                 << GetIntegerParameter("max-num-nodes")
-                << " and cost-complexity = " << GetFloatParameter("cost-complexity") << "." << std::endl;
-            exit(1);
+                << " and cost-complexity = " << GetFloatParameter("cost-complexity") << ".";
+            throw std::invalid_argument(message.str());
         }
     }
 }
\ No newline at end of file
-- 
2.43.0


From d0c51787bc27cff0e502f17b5364a7cf4907405c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:41 +0000
Subject: [PATCH 38/74] fix: reject cost specifications that do not cover the
 labels and features

A cost matrix smaller than the number of labels, missing feature costs and
negative feature ranges were read or written out of bounds.
---
 include/tasks/cost_sensitive.h |  3 +++
 src/tasks/cost_sensitive.cpp   | 15 +++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/include/tasks/cost_sensitive.h b/include/tasks/cost_sensitive.h
index 96fb69c..8746683 100644
--- a/include/tasks/cost_sensitive.h
+++ b/include/tasks/cost_sensitive.h
@@ -59,6 +59,7 @@ namespace STreeD {
 			UpdateCostSpecifier(static_cast<const CostSensitive*>(task)->cost_specifier);
 		}
 		void InformTrainData(const ADataView& train_data, const DataSummary& train_summary);
+		void InformTestData(const ADataView& test_data, const DataSummary& test_summary);
 		void UpdateCostSpecifier(const CostSpecifier& cost_specifier) { this->cost_specifier = cost_specifier; }
 
 		double GetLeafCosts(const ADataView& data, const BranchContext& context, int label) const;
@@ -83,6 +84,8 @@ namespace STreeD {
 		inline static bool CompareScore(double score1, double score2) { return score1 < score2; } // return true if score1 is better than score2
 
 	private:	
+		void CheckLabels(const ADataView& data) const;
+
 		std::string cost_filename;
 		CostSpecifier cost_specifier;
 	};
diff --git a/src/tasks/cost_sensitive.cpp b/src/tasks/cost_sensitive.cpp
index 61e7ac7..e65e06f 100644
--- a/src/tasks/cost_sensitive.cpp
+++ b/src/tasks/cost_sensitive.cpp
@@ -56,8 +56,12 @@ namespace STreeD {
 	}
 
 	void CostSpecifier::Initialize(const std::vector<FeatureCostSpecifier>& feature_cost_specifiers) {
+		for (auto& row : misclassification_costs) {
+			if (row.size() != misclassification_costs.size()) throw std::invalid_argument("The misclassification cost matrix should be square.");
+		}
 		int num_features = 0;
 		for(auto& fcs: feature_cost_specifiers) {
+			if (fcs.binary_begin < 0 || fcs.binary_begin > fcs.binary_end) throw std::invalid_argument("Invalid binary feature range in the feature costs.");
 			num_features += fcs.binary_end - fcs.binary_begin + 1;
 		}		
 		feature_costs = std::vector<double>(num_features);
@@ -131,6 +135,17 @@ namespace STreeD {
 		OptimizationTask::InformTrainData(train_data, train_summary);
 		runtime_assert(cost_filename != "" || cost_specifier.IsInitialized());
 		if(cost_filename != "") cost_specifier = CostSpecifier(cost_filename, train_data.NumLabels());
+		CheckLabels(train_data);
+		if (int(cost_specifier.feature_costs.size()) < train_data.NumFeatures()) throw std::invalid_argument("Feature costs are missing for some of the features.");
+	}
+
+	void CostSensitive::InformTestData(const ADataView& test_data, const DataSummary& test_summary) {
+		OptimizationTask::InformTestData(test_data, test_summary);
+		CheckLabels(test_data);
+	}
+
+	void CostSensitive::CheckLabels(const ADataView& data) const {
+		if (data.NumLabels() > int(cost_specifier.misclassification_costs.size())) throw std::invalid_argument("Misclassification costs are missing for some of the labels.");
 	}
 
 	void CostSensitive::GetInstanceLeafD2Costs(const AInstance* instance, int org_label, int label, double& costs, int multiplier) const {
-- 
2.43.0


From fd802570943318392ac56c25c0688498311787ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:41 +0000
Subject: [PATCH 39/74] fix: raise an error when an array with too many columns
 is given to predict

Surplus columns were silently ignored.
---
 pystreed/binarizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pystreed/binarizer.py b/pystreed/binarizer.py
index 0794dda..6d9b422 100644
--- a/pystreed/binarizer.py
+++ b/pystreed/binarizer.py
@@ -62,6 +62,7 @@ class Binarizer:
         X_bin = None
         X_cont = None
         self.binary_columns, self.categorical_columns, self.continuous_columns = get_column_types(X, self.categorical_columns)
+        self.n_columns = X.shape[1]
         if isinstance(X, pd.DataFrame):
             if len(self.categorical_columns) > 0:
                 X_cat = X[self.categorical_columns]
@@ -87,6 +88,9 @@ class Binarizer:
     def transform(self, X):
         parts = []
 
+        if isinstance(X, np.ndarray) and (X.ndim != 2 or X.shape[1] != self.n_columns):
+            raise ValueError(f"X should be two-dimensional with {self.n_columns} columns, but it has shape {X.shape}.")
+
         if isinstance(X, pd.DataFrame):
             if len(self.categorical_columns) > 0:
                 X_cat = X[self.categorical_columns]
-- 
2.43.0


From 8df3c945e4a5fe6737fda3e437c10ce5aec3eda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:41 +0000
Subject: [PATCH 40/74] fix: reject NaN costs in instance-cost-sensitive
 classification

---
 pystreed/instance_cost_sensitive_classification.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystreed/instance_cost_sensitive_classification.py b/pystreed/instance_cost_sensitive_classification.py
index a675c94..3704261 100644
--- a/pystreed/instance_cost_sensitive_classification.py
+++ b/pystreed/instance_cost_sensitive_classification.py
@@ -90,6 +90,8 @@ class STreeDInstanceCostSensitiveClassifier(BaseSTreeDSolver):
                 n_classes = self.n_classes_
                 if n_classes != y_in.shape[1]:
                     raise ValueError(f"The y-array does not have the expected shape. Expected {n_classes} columns, but found {y_in.shape[1]}.")
+            if np.isnan(y_in.astype(float)).any():
+                raise ValueError("The y-array contains NaN.")
             for row in y_in:
                 extra_data.append(CostVector(row))
         else:
-- 
2.43.0


From 08d275b1c6cf91ac4b58316d27c2e8e54eccdcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:11 +0000
Subject: [PATCH 41/74] fix: raise the not-fitted error when predicting
 instance-cost-sensitive before fit

---
 pystreed/instance_cost_sensitive_classification.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystreed/instance_cost_sensitive_classification.py b/pystreed/instance_cost_sensitive_classification.py
index 3704261..f7966af 100644
--- a/pystreed/instance_cost_sensitive_classification.py
+++ b/pystreed/instance_cost_sensitive_classification.py
@@ -1,6 +1,7 @@
 from pystreed.data import CostVector
 from pystreed.base import BaseSTreeDSolver
 from sklearn.utils._param_validation import Interval, StrOptions
+from sklearn.utils.validation import check_is_fitted
 from typing import Optional
 from pystreed.utils import _color_brew, _dynamic_float_formatter
 import numpy as np
@@ -148,6 +149,7 @@ class STreeDInstanceCostSensitiveClassifier(BaseSTreeDSolver):
             numpy.ndarray: A 1D array that represents the predicted target variable of the test data.
                 The i-th element in this array corresponds to the predicted target variable for the i-th instance in `x`.
         """
+        check_is_fitted(self, "fit_result")
         if extra_data is None:
             extra_data = [CostVector(np.zeros(self.n_classes_)) for i in range(len(X))]
         _, extra_data = self._check_data(extra_data, reset=False)
-- 
2.43.0


From 49ed859cf452726e26aad3bd932db52b8669d7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:11 +0000
Subject: [PATCH 42/74] fix: reject malformed treatments in prescriptive policy
 generation

Treatments that are not numbered consecutively from zero and missing
predictions were used as indices out of bounds.
---
 pystreed/prescriptive_policy_generation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pystreed/prescriptive_policy_generation.py b/pystreed/prescriptive_policy_generation.py
index beb03ec..0d37bd8 100644
--- a/pystreed/prescriptive_policy_generation.py
+++ b/pystreed/prescriptive_policy_generation.py
@@ -87,6 +87,8 @@ class STreeDPrescriptivePolicyGenerator(BaseSTreeDSolver):
         if isinstance(y_in, np.ndarray):
             extra_data = []
             if len(y_in.shape) == 2 and y_in.shape[1] >= 5:
+                if np.isnan(y_in.astype(float)).any():
+                    raise ValueError("The y-array contains NaN.")
                 if reset or self.n_classes_ is None:
                     n_classes = len(np.unique(y_in[:, 0]))
                 else:
@@ -121,6 +123,10 @@ class STreeDPrescriptivePolicyGenerator(BaseSTreeDSolver):
 
         if reset or self.n_classes_ is None:
             self.n_classes_ = len(np.unique(y_out))
+        if reset and (min(y_out, default=0) < 0 or max(y_out, default=0) >= self.n_classes_):
+            raise ValueError(f"The treatments should be numbered from 0 to {self.n_classes_ - 1}.")
+        if reset and any(len(inst.predicted_outcome) < self.n_classes_ for inst in extra_data):
+            raise ValueError(f"Each instance should have {self.n_classes_} regress and compare predictions.")
         return np.array(y_out, dtype=np.intc), extra_data
 
     def _process_extra_data(self, X, extra_data):
-- 
2.43.0


From a8fdacbba0cf879970834d3c010a28a94a990516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:11 +0000
Subject: [PATCH 43/74] fix: validate the continuous columns of piecewise
 linear regression

Missing values gave NaN predictions, and predicting with another number of
continuous columns than fitted read out of bounds.
---
 pystreed/regression.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pystreed/regression.py b/pystreed/regression.py
index ae162f7..8f2c188 100644
--- a/pystreed/regression.py
+++ b/pystreed/regression.py
@@ -1,7 +1,7 @@
 from pystreed.base import BaseSTreeDSolver
 from pystreed.data import ContinuousFeatureData, SimpleContinuousFeatureData
 from pystreed.binarizer import get_column_types
-from sklearn.utils.validation import check_is_fitted
+from sklearn.utils.validation import check_array, check_is_fitted
 from sklearn.utils._param_validation import Interval, StrOptions
 from typing import Optional
 import numpy as np
@@ -195,7 +195,7 @@ class STreeDPiecewiseLinearRegressor(BaseSTreeDSolver):
     def _process_extra_data(self, X, extra_data):
         return extra_data
 
-    def _get_continuous_columns(self, X, continuous_columns):
+    def _get_continuous_columns(self, X, continuous_columns, reset=False):
         if continuous_columns is None:
             continuous_columns = self.continuous_columns_
         if continuous_columns is None:
@@ -216,6 +216,9 @@ class STreeDPiecewiseLinearRegressor(BaseSTreeDSolver):
             cont_cols = continuous_columns.values
         else:
             raise ValueError(f"X should be a numpy array or a pandas data frame. X.type = {type(X)}")
+        cont_cols = check_array(cont_cols, dtype=np.double)
+        if not reset and cont_cols.shape[1] != self.n_continuous_columns_:
+            raise ValueError(f"Expected {self.n_continuous_columns_} continuous columns, but found {cont_cols.shape[1]}.")
         self.n_continuous_columns_ = cont_cols.shape[1]
         if self.simple:
             extra_data = [SimpleContinuousFeatureData(list(row)) for row in cont_cols]
@@ -251,7 +254,7 @@ class STreeDPiecewiseLinearRegressor(BaseSTreeDSolver):
             ValueError: If x or y is None or if they have different number of rows.
         """
         self.categorical_columns_ = categorical_columns
-        extra_data = self._get_continuous_columns(X, continuous_columns)
+        extra_data = self._get_continuous_columns(X, continuous_columns, reset=True)
         if isinstance(y, pd.Series): self.label_name_ = y.name
         return super().fit(X, y, extra_data, categorical_columns)
 
-- 
2.43.0


From 7fb1a1f45231a878e05118d66fb49f9ac9180509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:11 +0000
Subject: [PATCH 44/74] fix: detect the continuous columns anew in every
 piecewise linear fit

A second fit on other data used the column names of the first one.
---
 pystreed/regression.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystreed/regression.py b/pystreed/regression.py
index 8f2c188..4e861dd 100644
--- a/pystreed/regression.py
+++ b/pystreed/regression.py
@@ -254,6 +254,7 @@ class STreeDPiecewiseLinearRegressor(BaseSTreeDSolver):
             ValueError: If x or y is None or if they have different number of rows.
         """
         self.categorical_columns_ = categorical_columns
+        self.continuous_columns_ = None
         extra_data = self._get_continuous_columns(X, continuous_columns, reset=True)
         if isinstance(y, pd.Series): self.label_name_ = y.name
         return super().fit(X, y, extra_data, categorical_columns)
-- 
2.43.0


From f1536dd904eb8f0050c6b59d22f1f3fb96d440ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:11 +0000
Subject: [PATCH 45/74] fix: let set_params(simple=...) choose the linear
 regression task

---
 pystreed/regression.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystreed/regression.py b/pystreed/regression.py
index 4e861dd..970a136 100644
--- a/pystreed/regression.py
+++ b/pystreed/regression.py
@@ -253,6 +253,7 @@ class STreeDPiecewiseLinearRegressor(BaseSTreeDSolver):
         Raises:
             ValueError: If x or y is None or if they have different number of rows.
         """
+        self.optimization_task = "simple-linear-regression" if self.simple else "piecewise-linear-regression"
         self.categorical_columns_ = categorical_columns
         self.continuous_columns_ = None
         extra_data = self._get_continuous_columns(X, continuous_columns, reset=True)
-- 
2.43.0


From 756101ac2069689f9920817915ba99441a7a869f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:38 +0000
Subject: [PATCH 46/74] fix: support label gaps and refits in class
 probabilities and dot exports

The number of distinct labels was used as the number of classes, and the
colors of the first export were kept after a refit with more classes.  Both
led to an IndexError.
---
 pystreed/classification.py                | 9 ++++-----
 pystreed/cost_sensitive_classification.py | 9 ++++-----
 pystreed/group_fair.py                    | 9 ++++-----
 3 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/pystreed/classification.py b/pystreed/classification.py
index 52089f3..4f19213 100644
--- a/pystreed/classification.py
+++ b/pystreed/classification.py
@@ -119,8 +119,9 @@ class STreeDClassifier(BaseSTreeDSolver):
         Raises:
             ValueError: If x or y is None or if they have different number of rows.
         """
-        self.n_classes_ = len(np.unique(y))
-        return super().fit(X, y, extra_data, categorical)
+        super().fit(X, y, extra_data, categorical)
+        self.n_classes_ = int(self.train_y_.max()) + 1 # labels are numbered from zero
+        return self
 
     def predict_proba(self, X, extra_data=None):
         """
@@ -170,7 +171,5 @@ class STreeDClassifier(BaseSTreeDSolver):
             self._recursive_predict_proba(tree.right_child, probabilities, indices_right, X, train_data_right)
 
     def _export_dot_leaf_node(self, fh, node, node_id, label_names, train_data):
-        if not hasattr(self, "_colors"):
-            self._colors = _color_brew(self.n_classes_)
-        color = self._colors[node.label]
+        color = _color_brew(self.n_classes_)[node.label]
         return super()._export_dot_leaf_node(fh, node, node_id, label_names, train_data, color=color)
\ No newline at end of file
diff --git a/pystreed/cost_sensitive_classification.py b/pystreed/cost_sensitive_classification.py
index 19092a6..8ead76a 100644
--- a/pystreed/cost_sensitive_classification.py
+++ b/pystreed/cost_sensitive_classification.py
@@ -86,12 +86,11 @@ class STreeDCostSensitiveClassifier(BaseSTreeDSolver):
         Raises:
             ValueError: If x or y is None or if they have different number of rows.
         """
-        self.n_classes_ = len(np.unique(y))
         self.cost_specifier_ = cost_specifier
-        return super().fit(X, y, categorical=categorical)
+        super().fit(X, y, categorical=categorical)
+        self.n_classes_ = int(self.train_y_.max()) + 1 # labels are numbered from zero
+        return self
         
     def _export_dot_leaf_node(self, fh, node, node_id, label_names, train_data):
-        if not hasattr(self, "_colors"):
-            self._colors = _color_brew(self.n_classes_)
-        color = self._colors[node.label]
+        color = _color_brew(self.n_classes_)[node.label]
         return super()._export_dot_leaf_node(fh, node, node_id, label_names, train_data, color=color)
\ No newline at end of file
diff --git a/pystreed/group_fair.py b/pystreed/group_fair.py
index be97740..e78aed7 100644
--- a/pystreed/group_fair.py
+++ b/pystreed/group_fair.py
@@ -126,9 +126,10 @@ class STreeDGroupFairnessClassifier(BaseSTreeDSolver):
         Raises:
             ValueError: If x or y is None or if they have different number of rows.
         """
-        self.n_classes_ = len(np.unique(y))
         X = self._move_sensitive_feature_first(X)
-        return super().fit(X, y, categorical=categorical)
+        super().fit(X, y, categorical=categorical)
+        self.n_classes_ = int(self.train_y_.max()) + 1 # labels are numbered from zero
+        return self
     
     def predict(self, X):
         """
@@ -178,7 +179,5 @@ class STreeDGroupFairnessClassifier(BaseSTreeDSolver):
         return super().get_question_length(X, y_true)
         
     def _export_dot_leaf_node(self, fh, node, node_id, label_names, train_data):
-        if not hasattr(self, "_colors"):
-            self._colors = _color_brew(self.n_classes_)
-        color = self._colors[node.label]
+        color = _color_brew(self.n_classes_)[node.label]
         return super()._export_dot_leaf_node(fh, node, node_id, label_names, train_data, color=color)
\ No newline at end of file
-- 
2.43.0


From 1ca6dccea4f97708805a519c90087fbe9d7fb11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:38 +0000
Subject: [PATCH 47/74] fix: give class probabilities for F1-score trees

A leaf of an F1-score tree need not have the majority label.
---
 pystreed/classification.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pystreed/classification.py b/pystreed/classification.py
index 4f19213..49b69e6 100644
--- a/pystreed/classification.py
+++ b/pystreed/classification.py
@@ -160,7 +160,6 @@ class STreeDClassifier(BaseSTreeDSolver):
                 all_counts[label] = count
             probs = all_counts / n
             probabilities[indices] = probs
-            assert(probs[tree.label] >= max(probs) - 1e-5)
         else:
             indices_left  = np.intersect1d(np.argwhere(~X[:, tree.feature]), indices)
             indices_right = np.intersect1d(np.argwhere( X[:, tree.feature]), indices)
-- 
2.43.0


From 8c16508b99cdb0193fc949207d9f65d406dbff16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:54 +0000
Subject: [PATCH 48/74] fix: refresh the colors of dot exports after a refit
 with more labels

---
 pystreed/instance_cost_sensitive_classification.py | 9 +++------
 pystreed/prescriptive_policy_generation.py         | 3 +--
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/pystreed/instance_cost_sensitive_classification.py b/pystreed/instance_cost_sensitive_classification.py
index f7966af..a57224b 100644
--- a/pystreed/instance_cost_sensitive_classification.py
+++ b/pystreed/instance_cost_sensitive_classification.py
@@ -194,8 +194,7 @@ class STreeDInstanceCostSensitiveClassifier(BaseSTreeDSolver):
         return super().export_dot(filename, feature_names, label_names)
     
     def _get_branching_color(self, cost_sums):
-        if not hasattr(self, "colors"):
-            self.colors = _color_brew(self.n_classes_)
+        self.colors = _color_brew(self.n_classes_)
         best_ix = int(np.argmin(cost_sums))
         color = list(self.colors[best_ix])
         total_costs = sum(cost_sums)
@@ -212,8 +211,7 @@ class STreeDInstanceCostSensitiveClassifier(BaseSTreeDSolver):
         return "#%2x%2x%2x" % tuple(color)
 
     def _export_bar_plot(self, fh, node_id, label_names, train_data, text_prefix=""):
-        if not hasattr(self, "_colors"):
-            self._colors = _color_brew(self.n_classes_)
+        self._colors = _color_brew(self.n_classes_)
         import matplotlib.pyplot as plt
         plt.rc('axes', labelsize=6)
         plt.rc('xtick', labelsize=6)
@@ -273,8 +271,7 @@ class STreeDInstanceCostSensitiveClassifier(BaseSTreeDSolver):
         try:
             self._export_bar_plot(fh, node_id, label_names, train_data)
         except:
-            if not hasattr(self, "_colors"):
-                self._colors = _color_brew(self.n_classes_)
+            self._colors = _color_brew(self.n_classes_)
             color = self._colors[node.label]
             label =  self._get_label_str(node.label, label_names)
             hex_color = "#{:02x}{:02x}{:02x}".format(*color)
diff --git a/pystreed/prescriptive_policy_generation.py b/pystreed/prescriptive_policy_generation.py
index 0d37bd8..937f16c 100644
--- a/pystreed/prescriptive_policy_generation.py
+++ b/pystreed/prescriptive_policy_generation.py
@@ -226,7 +226,6 @@ class STreeDPrescriptivePolicyGenerator(BaseSTreeDSolver):
         return super().get_question_length(X, y_test, extra_data)
 
     def _export_dot_leaf_node(self, fh, node, node_id, label_names, train_data):
-        if not hasattr(self, "_colors"):
-            self._colors = _color_brew(self.n_classes_)
+        self._colors = _color_brew(self.n_classes_)
         color = self._colors[node.label]
         return super()._export_dot_leaf_node(fh, node, node_id, label_names, train_data, color=color)
\ No newline at end of file
-- 
2.43.0


From 349fc42e9d108772eb9f8251a1659622157331f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:22:07 +0000
Subject: [PATCH 49/74] fix: check the optimization task of an estimator when
 it is fitted

A task that the estimator does not support could be set with set_params and
led to errors or crashes after the fit.
---
 pystreed/classification.py | 6 +++++-
 pystreed/group_fair.py     | 3 ++-
 pystreed/regression.py     | 1 +
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pystreed/classification.py b/pystreed/classification.py
index 49b69e6..bb3d947 100644
--- a/pystreed/classification.py
+++ b/pystreed/classification.py
@@ -1,6 +1,6 @@
 from pystreed.base import BaseSTreeDSolver
 from typing import Optional
-from sklearn.utils._param_validation import Interval
+from sklearn.utils._param_validation import Interval, StrOptions
 from sklearn.utils.validation import check_is_fitted
 from pystreed.utils import _color_brew
 import numpy as np
@@ -13,6 +13,10 @@ class STreeDClassifier(BaseSTreeDSolver):
     It supports several objectives, as specified by the optimization task parameter
     """
 
+    _parameter_constraints: dict = {**BaseSTreeDSolver._parameter_constraints,
+        "optimization_task": [StrOptions({"accuracy", "cost-complex-accuracy", "f1-score"})]
+    }
+
     def __init__(self, 
                  optimization_task : str = "accuracy",
                  max_depth : int = 3,
diff --git a/pystreed/group_fair.py b/pystreed/group_fair.py
index e78aed7..a4118e5 100644
--- a/pystreed/group_fair.py
+++ b/pystreed/group_fair.py
@@ -1,6 +1,6 @@
 from pystreed.base import BaseSTreeDSolver
 from typing import Optional, Union
-from sklearn.utils._param_validation import Interval
+from sklearn.utils._param_validation import Interval, StrOptions
 from pystreed.utils import _color_brew
 import numpy as np
 import pandas as pd
@@ -9,6 +9,7 @@ import numbers
 class STreeDGroupFairnessClassifier(BaseSTreeDSolver):
 
     _parameter_constraints: dict = {**BaseSTreeDSolver._parameter_constraints, 
+        "optimization_task": [StrOptions({"group-fairness", "equality-of-opportunity"})],
         "discrimination_limit": [Interval(numbers.Real, 0, 1, closed="both")]
     }
 
diff --git a/pystreed/regression.py b/pystreed/regression.py
index 970a136..a45ce15 100644
--- a/pystreed/regression.py
+++ b/pystreed/regression.py
@@ -13,6 +13,7 @@ import os
 class STreeDRegressor(BaseSTreeDSolver):
 
     _parameter_constraints: dict = {**BaseSTreeDSolver._parameter_constraints, 
+        "optimization_task": [StrOptions({"regression", "cost-complex-regression"})],
         "regression_lower_bound": [StrOptions({"equivalent", "kmeans"})]
     }
 
-- 
2.43.0


From 7c4bbc9a3a5aab11bb5766a29c1374c2fba5d276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:23:56 +0000
Subject: [PATCH 50/74] fix: reject cost vectors of unequal length

The missing costs were read out of bounds.
---
 pystreed/instance_cost_sensitive_classification.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystreed/instance_cost_sensitive_classification.py b/pystreed/instance_cost_sensitive_classification.py
index a57224b..d48173f 100644
--- a/pystreed/instance_cost_sensitive_classification.py
+++ b/pystreed/instance_cost_sensitive_classification.py
@@ -107,6 +107,8 @@ class STreeDInstanceCostSensitiveClassifier(BaseSTreeDSolver):
 
         if reset or self.n_classes_ is None:
             self.n_classes_ = num_labels
+        if any(len(inst.costs) != self.n_classes_ for inst in extra_data):
+            raise ValueError(f"Each cost vector should have {self.n_classes_} costs.")
         return np.array(y_out, dtype=np.intc), extra_data
 
     def _process_extra_data(self, X, extra_data):
-- 
2.43.0


From db40ad280411e2544190748d7cf9119c458520f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:23 +0000
Subject: [PATCH 51/74] fix: check that the estimator is fitted before looking
 at the test data

After an infeasible fit, scoring raised an error about the shape of the data.
---
 pystreed/instance_cost_sensitive_classification.py | 2 ++
 pystreed/prescriptive_policy_generation.py         | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/pystreed/instance_cost_sensitive_classification.py b/pystreed/instance_cost_sensitive_classification.py
index d48173f..0c991c1 100644
--- a/pystreed/instance_cost_sensitive_classification.py
+++ b/pystreed/instance_cost_sensitive_classification.py
@@ -170,6 +170,7 @@ class STreeDInstanceCostSensitiveClassifier(BaseSTreeDSolver):
         Returns:
             The score
         """
+        check_is_fitted(self, "fit_result")
         y_test, extra_data = self._check_data(y_test, reset=False)
         return super().score(X, y_test, extra_data)
 
@@ -185,6 +186,7 @@ class STreeDInstanceCostSensitiveClassifier(BaseSTreeDSolver):
         Returns:
             The question length
         """
+        check_is_fitted(self, "fit_result")
         y_test, extra_data = self._check_data(y_test, reset=False)
         return super().get_question_length(X, y_test, extra_data)
 
diff --git a/pystreed/prescriptive_policy_generation.py b/pystreed/prescriptive_policy_generation.py
index 937f16c..b66ec25 100644
--- a/pystreed/prescriptive_policy_generation.py
+++ b/pystreed/prescriptive_policy_generation.py
@@ -1,6 +1,7 @@
 from pystreed.data import PPGData
 from pystreed.base import BaseSTreeDSolver
 from sklearn.utils._param_validation import Interval, StrOptions
+from sklearn.utils.validation import check_is_fitted
 from typing import Optional
 from pystreed.utils import _color_brew
 import numpy as np
@@ -183,6 +184,7 @@ class STreeDPrescriptivePolicyGenerator(BaseSTreeDSolver):
             numpy.ndarray: A 1D array that represents the predicted target variable of the test data.
                 The i-th element in this array corresponds to the predicted target variable for the i-th instance in `x`.
         """
+        check_is_fitted(self, "fit_result")
         if extra_data is None:
             extra_data = [PPGData() for i in range(len(X))]
         _, extra_data = self._check_data(extra_data, reset=False)
@@ -207,6 +209,7 @@ class STreeDPrescriptivePolicyGenerator(BaseSTreeDSolver):
         Returns:
             The score
         """
+        check_is_fitted(self, "fit_result")
         y_test, extra_data = self._check_data(y_test, reset=False)
         return super().score(X, y_test, extra_data)
 
@@ -222,6 +225,7 @@ class STreeDPrescriptivePolicyGenerator(BaseSTreeDSolver):
         Returns:
             The question length
         """
+        check_is_fitted(self, "fit_result")
         y_test, extra_data = self._check_data(y_test, reset=False)
         return super().get_question_length(X, y_test, extra_data)
 
-- 
2.43.0


From 39edf45d5885a08861e61b76e27a2c7927176020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:47:11 +0000
Subject: [PATCH 52/74] fix: do not return a tree that is worse than the
 provided upper bound

---
 src/solver/solver.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 2f1c40b..d51a26b 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -169,6 +169,16 @@ namespace STreeD {
 			}
 		}
 		
+		// A tree that is worse than the provided upper bound is not a solution
+		if constexpr (std::is_same<Solver<OT>::SolType, double>::value || std::is_same<Solver<OT>::SolType, int>::value) {
+			double ub = parameters.GetFloatParameter("upper-bound");
+			bool has_ub = std::abs(ub - INT32_MAX) >= 1;
+			if constexpr (std::is_same<Solver<OT>::SolType, double>::value) { ub *= 1 + DBL_DIFF; }
+			if (has_ub && result.IsFeasible() && ub < result.solution) {
+				result = InitializeSol<OT>();
+			}
+		}
+
 		// Evaluate the results
 		auto solver_result = std::make_shared<SolverTaskResult<OT>>();
 		solver_result->is_proven_optimal = stopwatch.IsWithinTimeLimit();
-- 
2.43.0


From 632b6c54a00942cbaf405c47a8f70e52cfa7c6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:47:11 +0000
Subject: [PATCH 53/74] fix: accept upper bounds above the integer range for
 accuracy

---
 src/solver/solver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index d51a26b..05b6efc 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -94,6 +94,9 @@ namespace STreeD {
 				if (std::abs(ub - INT32_MAX) < 1 && std::is_same<Solver<OT>::SolType, double>::value) {
 					ub = DBL_MAX;
 				}
+				if constexpr (std::is_same<Solver<OT>::SolType, int>::value) {
+					ub = std::min(ub, double(INT32_MAX)); // The upper bound should fit in an int
+				}
 				AddSol<OT>(global_UB, Node<OT>(ub));
 			}
 			result = SolveLeafNode(train_data, root_context, global_UB);
-- 
2.43.0


From 72a78ba6ba914f44b53720597924c9ad96f2aa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:52:11 +0000
Subject: [PATCH 54/74] fix: do not set a negative time limit when hyper-tuning
 runs out of time

---
 src/solver/solver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 05b6efc..30c1866 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -958,7 +958,7 @@ namespace STreeD {
 					
 					bool reset = solver.parameters.GetIntegerParameter("max-depth") < tuning_config.parameters[c].GetIntegerParameter("max-depth");
 					solver.parameters = tuning_config.parameters[c];
-					solver.parameters.SetFloatParameter("time", stopwatch.TimeLeftInSeconds());
+					solver.parameters.SetFloatParameter("time", std::max(0.0, stopwatch.TimeLeftInSeconds()));
 					solver.InitializeSolver(sub_train_data, tuning_config.reset_solver || reset);
 					const auto result = solver.Solve(sub_train_data);
 					const auto test_result = solver.TestPerformance(result, sub_test_data);					
@@ -993,7 +993,7 @@ namespace STreeD {
 			parameters = tuning_config.parameters[best_config];
 		}
 		stats.total_time += stopwatch.TimeElapsedInSeconds();
-		parameters.SetFloatParameter("time", stopwatch.TimeLeftInSeconds());
+		parameters.SetFloatParameter("time", std::max(0.0, stopwatch.TimeLeftInSeconds()));
 		return Solve(train_data);
 	}
 
-- 
2.43.0


From d1967940bdb6a3db6bfeb8b0b97d912c4d8925e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:54:38 +0000
Subject: [PATCH 55/74] fix: do not read the size of a missing tree when a
 tuning fold has no solution

---
 src/solver/solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 30c1866..e994f73 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -969,7 +969,7 @@ namespace STreeD {
 						performances[c][r] = test_result->scores[test_result->best_index];
 					}
 					if(verbose) std::cout << " \tScore: " << OT::ScoreToString(performances[c][r]->score) << std::endl;
-					if (tuning_config.skip_when_max_tree && result->GetBestNodeCount() == max_num_nodes && c + 1 < n_configs) {
+					if (tuning_config.skip_when_max_tree && result->NumSolutions() > 0 && result->GetBestNodeCount() == max_num_nodes && c + 1 < n_configs) {
 						if (verbose) std::cout << "Reached maximum tree. Skipping configuration " << (c + 2) << " to " << n_configs << std::endl;
 						for (c++; c < n_configs;c++) {
 							performances[c][r] = performances[c - 1][r];
-- 
2.43.0


From 6d4dab91b9b706803e59c4e5eb0cd88c4ebd4298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:48 +0000
Subject: [PATCH 56/74] fix: do not divide by the size of an absent group in
 the fairness tasks

---
 include/tasks/eq_opp.h         |  2 +-
 include/tasks/group_fairness.h |  2 +-
 src/tasks/eq_opp.cpp           | 16 ++++++++--------
 src/tasks/group_fairness.cpp   | 16 ++++++++--------
 4 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/tasks/eq_opp.h b/include/tasks/eq_opp.h
index d6a5e49..dd630e6 100644
--- a/include/tasks/eq_opp.h
+++ b/include/tasks/eq_opp.h
@@ -86,7 +86,7 @@ namespace STreeD {
 
 		void ComputeD2Costs(const EqOppSol& d2costs, int count, EqOppSol& costs) const { costs = d2costs; }
 		inline EqOppSol GetWorstPerLabel(int label) const {
-			const double worst_group = 1.0 / std::min(train_group0_size, train_group1_size);
+			const double worst_group = 1.0 / std::max(1, std::min(train_group0_size, train_group1_size));
 			return label ? EqOppSol({ 1, worst_group, worst_group }) : EqOppSol({ 1, 0.0, 0.0 });
 		}
 
diff --git a/include/tasks/group_fairness.h b/include/tasks/group_fairness.h
index 7636a9d..d55558e 100644
--- a/include/tasks/group_fairness.h
+++ b/include/tasks/group_fairness.h
@@ -86,7 +86,7 @@ namespace STreeD {
 
 		void ComputeD2Costs(const GroupFairnessSol& d2costs, int count, GroupFairnessSol& costs) const { costs = d2costs; }
 		inline GroupFairnessSol GetWorstPerLabel(int label) const { 
-			const double worst_group = 1.0 / std::min(train_group0_size, train_group1_size);
+			const double worst_group = 1.0 / std::max(1, std::min(train_group0_size, train_group1_size));
 			return GroupFairnessSol({ 1, worst_group, worst_group });
 		}
 		
diff --git a/src/tasks/eq_opp.cpp b/src/tasks/eq_opp.cpp
index 17c644f..e27c73b 100644
--- a/src/tasks/eq_opp.cpp
+++ b/src/tasks/eq_opp.cpp
@@ -39,13 +39,13 @@ namespace STreeD {
 		return label ?
 			EqOppSol({
 				data.NumInstancesForLabel(0), // Binary misclassification score
-				group0_size / double(train_group0_size),
-				(data.NumInstancesForLabel(1) - group0_size) / double(train_group1_size)
+				group0_size / double(std::max(1, train_group0_size)),
+				(data.NumInstancesForLabel(1) - group0_size) / double(std::max(1, train_group1_size))
 				}) :
 			EqOppSol({
 				data.NumInstancesForLabel(1), // Binary misclassification score
-				(data.NumInstancesForLabel(1) - group0_size) / double(train_group1_size),
-				group0_size / double(train_group0_size)
+				(data.NumInstancesForLabel(1) - group0_size) / double(std::max(1, train_group1_size)),
+				group0_size / double(std::max(1, train_group0_size))
 				});
 	}
 
@@ -66,13 +66,13 @@ namespace STreeD {
 		costs = label ?
 			EqOppSol({
 				multiplier * (label - org_label), // Binary misclassification score
-				multiplier * (group0 / double(train_group0_size)),
-				multiplier * (group1 / double(train_group1_size))
+				multiplier * (group0 / double(std::max(1, train_group0_size))),
+				multiplier * (group1 / double(std::max(1, train_group1_size)))
 				}) :
 			EqOppSol({
 				multiplier * (org_label - label), // Binary misclassification score
-				multiplier * (group1 / double(train_group1_size)),
-				multiplier * (group0 / double(train_group0_size))
+				multiplier * (group1 / double(std::max(1, train_group1_size))),
+				multiplier * (group0 / double(std::max(1, train_group0_size)))
 				});
 	}
 
diff --git a/src/tasks/group_fairness.cpp b/src/tasks/group_fairness.cpp
index 80cc4d5..35d7b0f 100644
--- a/src/tasks/group_fairness.cpp
+++ b/src/tasks/group_fairness.cpp
@@ -41,13 +41,13 @@ namespace STreeD {
 		return label ?
 			GroupFairnessSol({
 				data.NumInstancesForLabel(0), // Binary misclassification score
-				group0_size / double(train_group0_size),
-				(data.Size() - group0_size) / double(train_group1_size)
+				group0_size / double(std::max(1, train_group0_size)),
+				(data.Size() - group0_size) / double(std::max(1, train_group1_size))
 				}) :
 			GroupFairnessSol({
 				data.NumInstancesForLabel(1), // Binary misclassification score
-				(data.Size() - group0_size) / double(train_group1_size),
-				group0_size / double(train_group0_size)
+				(data.Size() - group0_size) / double(std::max(1, train_group1_size)),
+				group0_size / double(std::max(1, train_group0_size))
 				});
 	}
 
@@ -67,13 +67,13 @@ namespace STreeD {
 		costs = label ?
 			GroupFairnessSol({
 				multiplier * (label - org_label), // Binary misclassification score
-				multiplier * (group0 / double(train_group0_size)),
-				multiplier * ((1 - group0) / double(train_group1_size))
+				multiplier * (group0 / double(std::max(1, train_group0_size))),
+				multiplier * ((1 - group0) / double(std::max(1, train_group1_size)))
 				}) :
 			GroupFairnessSol({
 				multiplier * (org_label - label), // Binary misclassification score
-				multiplier * ((1 - group0) / double(train_group1_size)),
-				multiplier * (group0 / double(train_group0_size))
+				multiplier * ((1 - group0) / double(std::max(1, train_group1_size))),
+				multiplier * (group0 / double(std::max(1, train_group0_size)))
 				});
 	}
 
-- 
2.43.0


From 0153a6c06b44bdf8eaff784e7b2564c9d1dfe34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:07:16 +0000
Subject: [PATCH 57/74] fix: merge equal instances into a copy instead of
 changing the data

---
 src/tasks/regression/cost_complex_regression.cpp       | 10 ++++++----
 .../regression/piecewise_simple_linear_regression.cpp  | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/tasks/regression/cost_complex_regression.cpp b/src/tasks/regression/cost_complex_regression.cpp
index f5afb5f..e946303 100644
--- a/src/tasks/regression/cost_complex_regression.cpp
+++ b/src/tasks/regression/cost_complex_regression.cpp
@@ -133,11 +133,13 @@ namespace STreeD {
 			prev = current;
 		}
 		{
-			auto mutable_instance = train_data.GetMutableInstance(0, ix_first);
-			SetInstanceLabel<double>(mutable_instance, y);
-			auto reg_i = static_cast<Instance<double, RegExtraData>*>(mutable_instance);
+			auto copy_instance = new Instance<double, RegExtraData>(*static_cast<const Instance<double, RegExtraData>*>(instances[ix_first]));
+			SetInstanceLabel<double>(copy_instance, y);
+			auto reg_i = static_cast<Instance<double, RegExtraData>*>(copy_instance);
 			reg_i->GetMutableExtraData().ysq = ysq;
-			mutable_instance->SetWeight(n);
+			copy_instance->SetWeight(n);
+			instances[ix_first] = copy_instance;
+			data.AddInstance(copy_instance);
 		}
 		instances.resize(ix_first+1);
 		train_data.ComputeSize();
diff --git a/src/tasks/regression/piecewise_simple_linear_regression.cpp b/src/tasks/regression/piecewise_simple_linear_regression.cpp
index fa00d82..e4d8033 100644
--- a/src/tasks/regression/piecewise_simple_linear_regression.cpp
+++ b/src/tasks/regression/piecewise_simple_linear_regression.cpp
@@ -237,9 +237,9 @@ namespace STreeD {
 			prev = current;
 		}
 		{
-			auto mutable_instance = train_data.GetMutableInstance(0, ix_first);
-			SetInstanceLabel<double>(mutable_instance, y);
-			auto reg_i = static_cast<Instance<double, SimpleLinRegExtraData>*>(mutable_instance);
+			auto copy_instance = new Instance<double, SimpleLinRegExtraData>(*static_cast<const Instance<double, SimpleLinRegExtraData>*>(instances[ix_first]));
+			SetInstanceLabel<double>(copy_instance, y);
+			auto reg_i = static_cast<Instance<double, SimpleLinRegExtraData>*>(copy_instance);
 			auto& ed = reg_i->GetMutableExtraData();
 			ed.ysq = ysq;
 			for (int f = 0; f < num_cont_features; f++) {
@@ -247,7 +247,9 @@ namespace STreeD {
 				ed.xsq[f] = xsq[f];
 				ed.yx[f] = yx[f];
 			}
-			mutable_instance->SetWeight(n);
+			copy_instance->SetWeight(n);
+			instances[ix_first] = copy_instance;
+			data.AddInstance(copy_instance);
 		}
 		instances.resize(ix_first+1);
 		train_data.ComputeSize();
-- 
2.43.0


From 5566d90b901ca319b7f3f18ea522e4e1191fc1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:07:17 +0000
Subject: [PATCH 58/74] fix: tune and fit the final tree on the original
 training data

---
 src/solver/solver.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index e994f73..e81cab9 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -931,7 +931,7 @@ namespace STreeD {
 			std::vector<std::vector<ScoreType>> performances(n_configs, std::vector<ScoreType>(n_runs));
 
 			std::vector<ADataView> sub_train_datas, sub_test_datas;
-			ADataView::KFoldSplit<typename OT::LabelType>(train_data, sub_train_datas, sub_test_datas, rng, n_runs, false);
+			ADataView::KFoldSplit<typename OT::LabelType>(_train_data, sub_train_datas, sub_test_datas, rng, n_runs, false);
 
 			for (int r = 0; r < n_runs; r++) {
 				int ix = 0;
@@ -994,7 +994,8 @@ namespace STreeD {
 		}
 		stats.total_time += stopwatch.TimeElapsedInSeconds();
 		parameters.SetFloatParameter("time", std::max(0.0, stopwatch.TimeLeftInSeconds()));
-		return Solve(train_data);
+		InitializeSolver(_train_data, true); // The preprocessing of the training data depends on the parameters
+		return Solve(_train_data);
 	}
 
 
-- 
2.43.0


From 23ee89f54ff4503edf1df3e9542d32d16ce57b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:12:16 +0000
Subject: [PATCH 59/74] fix: hyper-tune only when there are candidate settings
 and non-empty folds

---
 src/solver/solver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index e81cab9..2cdfc8f 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -924,8 +924,9 @@ namespace STreeD {
 			double best_score;
 			auto tuning_config = OT::GetTuneRunConfiguration(parameters, train_data, tune_phase);
 
-			const int n_runs = tuning_config.GetNumberOfRuns();
+			const int n_runs = std::min(tuning_config.GetNumberOfRuns(), _train_data.Size());
 			const int n_configs = tuning_config.GetNumberOfConfigs();
+			if (n_configs == 0 || n_runs < 2) continue; // Nothing to compare
 			const double validation_percentage = tuning_config.validation_percentage;
 
 			std::vector<std::vector<ScoreType>> performances(n_configs, std::vector<ScoreType>(n_runs));
-- 
2.43.0


From d3e6eec411f6932b8d96b9ba169c2c98b9c8d970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:22:39 +0000
Subject: [PATCH 60/74] fix: encode the most common categories of a categorical
 column

---
 pystreed/binarizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pystreed/binarizer.py b/pystreed/binarizer.py
index 6d9b422..23cbd40 100644
--- a/pystreed/binarizer.py
+++ b/pystreed/binarizer.py
@@ -183,7 +183,8 @@ class CategoricalBinarizer(BaseEstimator, TransformerMixin):
                 column_names.append([])
                 continue
             elif n_categories[jj] == 2 or len(counter) == 2:
-                value = counter.most_common(2)[1][0] # get the key of the second most common value
+                # Get the key of the second of two values, or else of the most common value
+                value = counter.most_common(2)[1 if len(counter) == 2 else 0][0]
                 n_categories[jj] = 1
                 categories.append([value])
                 escaped_value = _escape(value)
@@ -192,7 +193,7 @@ class CategoricalBinarizer(BaseEstimator, TransformerMixin):
                 else:
                     column_names.append([f"{column_name} == {value}"])
                 continue
-            values = list(counter.keys())
+            values = [value for value, _ in counter.most_common()]
             if len(values) > n_categories[jj]:
                 values = values[:n_categories[jj] - 1] + [values[n_categories[jj] - 1:]]
             n_categories[jj] = len(values)
-- 
2.43.0


From e710112b7efed085ca5b596e18897910a6fad185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:23:20 +0000
Subject: [PATCH 61/74] fix: keep thresholds of the tree strategy that equal
 the marker of leaf nodes

---
 pystreed/binarizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystreed/binarizer.py b/pystreed/binarizer.py
index 23cbd40..9fbbe02 100644
--- a/pystreed/binarizer.py
+++ b/pystreed/binarizer.py
@@ -323,7 +323,7 @@ class KThresholdBinarizer(BaseEstimator, TransformerMixin):
                 #error_function = 'accuracy' if is_classification else "neg_mean_squared_error"
                 model = Ml_model(max_leaf_nodes=n_thresholds[jj] + 1)
                 model.fit(_X, y)
-                cutpoints = sorted([t for t in model.tree_.threshold if t != sklearn.tree._tree.TREE_UNDEFINED])
+                cutpoints = sorted([t for f, t in zip(model.tree_.feature, model.tree_.threshold) if f != sklearn.tree._tree.TREE_UNDEFINED])
             n_thresholds[jj] = len(cutpoints)
             thresholds.append(cutpoints)
             column_names.append([f"{column_name} <= {c}" for c in cutpoints])
-- 
2.43.0


From 4da94671f565c18c57b7d91098363eae62c40081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:25:48 +0000
Subject: [PATCH 62/74] fix: treat the binary feature of the sensitive column
 as the sensitive feature

The first feature after binarisation was taken for the sensitive feature, also
when the sensitive column is categorical or numeric and its feature comes later.
The column numbers of categorical columns were not adapted to the moved column.
---
 pystreed/group_fair.py | 56 ++++++++++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 19 deletions(-)

diff --git a/pystreed/group_fair.py b/pystreed/group_fair.py
index a4118e5..71f1b45 100644
--- a/pystreed/group_fair.py
+++ b/pystreed/group_fair.py
@@ -86,27 +86,49 @@ class STreeDGroupFairnessClassifier(BaseSTreeDSolver):
         self._params.discrimination_limit = self.discrimination_limit
         return self._params
 
-    def _move_sensitive_feature_first(self, X):
-        if isinstance(X, pd.DataFrame): X = X.copy() # Do not change the data of the caller
+    def _get_sensitive_column(self, X):
+        """
+        Get the name (data frames) or index (arrays) of the sensitive column
+        """
         if isinstance(self.sensitive_feature, int):
-            if self.sensitive_feature == 0: return X
-            if isinstance(X, pd.DataFrame):
-                sensitive_feature = X.columns[self.sensitive_feature]
-                sensitive_column = X.pop(sensitive_feature) 
-                X.insert(0, sensitive_feature, sensitive_column) 
-                return X
-            return X[:, [self.sensitive_feature, *range(0,self.sensitive_feature), *range(self.sensitive_feature+1, X.shape[1])]]
-
+            return X.columns[self.sensitive_feature] if isinstance(X, pd.DataFrame) else self.sensitive_feature
         elif isinstance(self.sensitive_feature, str):
-            # assume pandas dataframe
-            if not self.sensitive_feature in X.columns:
+            if not isinstance(X, pd.DataFrame) or not self.sensitive_feature in X.columns:
                  raise ValueError(f"Column {self.sensitive_feature} is not part of the data.")
-            sensitive_column = X.pop(self.sensitive_feature) 
-            X.insert(0, self.sensitive_feature, sensitive_column)
-            return X
+            return self.sensitive_feature
         else:
             raise ValueError(f"The sensitive feature column should be either an index or a string, but is {self.sensitive_feature} of type {type(self.sensitive_feature)}.")
 
+    def _get_sensitive_feature_index(self, column):
+        """
+        Get the index of the binary feature that represents the sensitive column
+        """
+        binarizer = self.binarizer_
+        if column in binarizer.binary_columns:
+            return binarizer.binary_columns.index(column)
+        offset = len(binarizer.binary_columns)
+        for columns, get_widths in [(binarizer.categorical_columns, lambda: binarizer.categorical_binarizer.n_categories_),
+                                    (binarizer.continuous_columns, lambda: binarizer.continuous_binarizer.n_thresholds_)]:
+            if len(columns) == 0: continue
+            widths = list(get_widths())
+            if column in columns:
+                index = list(columns).index(column)
+                if widths[index] != 1: break
+                return offset + sum(widths[:index])
+            offset += sum(widths)
+        raise ValueError(f"The sensitive feature {column} should be a binary feature.")
+
+    def _binarize_data(self, X, y=None, categorical_columns=None, reset=True):
+        """
+        Binarize the feature data and move the sensitive feature first
+        """
+        binary_X = super()._binarize_data(X, y, categorical_columns, reset)
+        index = self._get_sensitive_feature_index(self._get_sensitive_column(X))
+        order = [index, *range(0, index), *range(index + 1, binary_X.shape[1])]
+        if isinstance(binary_X, pd.DataFrame):
+            return binary_X.iloc[:, order]
+        return binary_X[:, order]
+
     def fit(self, X, y, categorical=None):
         """
         Fits a STreeD model to the given training data.
@@ -127,7 +149,6 @@ class STreeDGroupFairnessClassifier(BaseSTreeDSolver):
         Raises:
             ValueError: If x or y is None or if they have different number of rows.
         """
-        X = self._move_sensitive_feature_first(X)
         super().fit(X, y, categorical=categorical)
         self.n_classes_ = int(self.train_y_.max()) + 1 # labels are numbered from zero
         return self
@@ -144,7 +165,6 @@ class STreeDGroupFairnessClassifier(BaseSTreeDSolver):
             numpy.ndarray: A 1D array that represents the predicted target variable of the test data.
                 The i-th element in this array corresponds to the predicted target variable for the i-th instance in `x`.
         """
-        X = self._move_sensitive_feature_first(X)
         return super().predict(X)
     
     def score(self, X, y_true):
@@ -160,7 +180,6 @@ class STreeDGroupFairnessClassifier(BaseSTreeDSolver):
         Returns:
             The score
         """
-        X = self._move_sensitive_feature_first(X)
         return super().score(X, y_true)
 
     def get_question_length(self, X, y_true):
@@ -176,7 +195,6 @@ class STreeDGroupFairnessClassifier(BaseSTreeDSolver):
         Returns:
             The question length
         """
-        X = self._move_sensitive_feature_first(X)
         return super().get_question_length(X, y_true)
         
     def _export_dot_leaf_node(self, fh, node, node_id, label_names, train_data):
-- 
2.43.0


From 4a157e113e622d154d75a45276e823dcc1d5936d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:35:57 +0000
Subject: [PATCH 63/74] fix: fit binary classification tasks to data with only
 the negative label

The tasks read the instances of the positive label, which do not exist when all
labels are zero: equality-of-opportunity crashed, and group-fairness and f1-score
reported arbitrary scores.
---
 include/tasks/eq_opp.h         | 5 +++++
 include/tasks/f1score.h        | 5 +++++
 include/tasks/group_fairness.h | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/include/tasks/eq_opp.h b/include/tasks/eq_opp.h
index dd630e6..3714d0b 100644
--- a/include/tasks/eq_opp.h
+++ b/include/tasks/eq_opp.h
@@ -62,6 +62,7 @@ namespace STreeD {
 
 		static const bool total_order = false;
 		static const bool custom_leaf = false;
+		static const bool preprocess_train_test_data = true;	// Preprocessing adds the positive label if it is absent
 		static const bool check_unique = true;
 		static const bool has_constraint = true;
 		static const bool terminal_filter = true;
@@ -74,6 +75,10 @@ namespace STreeD {
 			discrimination_limit = parameters.GetFloatParameter("discrimination-limit");
 		}
 
+		// Preprocess the training data: both labels are part of the task, also when all instances have the negative label
+		void PreprocessTrainData(ADataView& train_data) { if (train_data.NumLabels() < 2) train_data.GetMutableInstances().resize(2); }
+		void PreprocessTestData(ADataView& test_data) {}
+
 		void InformTrainData(const ADataView& train_data, const DataSummary& train_summary);
 		void InformTestData(const ADataView& test_data, const DataSummary& test_summary);
 
diff --git a/include/tasks/f1score.h b/include/tasks/f1score.h
index 30df6f2..7a2eaf0 100644
--- a/include/tasks/f1score.h
+++ b/include/tasks/f1score.h
@@ -32,6 +32,7 @@ namespace STreeD {
 
 		static const bool total_order = false;
 		static const bool custom_leaf = false;
+		static const bool preprocess_train_test_data = true;	// Preprocessing adds the positive label if it is absent
 		static const bool check_unique = false;
 		static const bool terminal_zero_costs_true_label = false; // True iff the costs of assigning the true label in the terminal is zero
 		static constexpr F1ScoreSol worst = { INT32_MAX, INT32_MAX };
@@ -52,6 +53,10 @@ namespace STreeD {
 		void ComputeD2Costs(const F1ScoreSol& d2costs, int count, F1ScoreSol& costs) const { costs = d2costs; }
 		inline F1ScoreSol GetWorstPerLabel(int label) const { return label == 0 ? F1ScoreSol({ 0, 1 }) : F1ScoreSol({ 1, 0 }); }
 		
+		// Preprocess the training data: both labels are part of the task, also when all instances have the negative label
+		void PreprocessTrainData(ADataView& train_data) { if (train_data.NumLabels() < 2) train_data.GetMutableInstances().resize(2); }
+		void PreprocessTestData(ADataView& test_data) {}
+
 		double ComputeTrainScore(const F1ScoreSol& train_value) const;
 		double ComputeTrainTestScore(const F1ScoreSol& test_value) const;
 		double ComputeTestTestScore(const F1ScoreSol& test_value) const;
diff --git a/include/tasks/group_fairness.h b/include/tasks/group_fairness.h
index d55558e..b54ad40 100644
--- a/include/tasks/group_fairness.h
+++ b/include/tasks/group_fairness.h
@@ -62,6 +62,7 @@ namespace STreeD {
 
 		static const bool total_order = false;
 		static const bool custom_leaf = false;
+		static const bool preprocess_train_test_data = true;	// Preprocessing adds the positive label if it is absent
 		static const bool check_unique = true;
 		static const bool has_constraint = true;
 		static const bool terminal_filter = true;
@@ -74,6 +75,10 @@ namespace STreeD {
 			discrimination_limit = parameters.GetFloatParameter("discrimination-limit");
 		}
 
+		// Preprocess the training data: both labels are part of the task, also when all instances have the negative label
+		void PreprocessTrainData(ADataView& train_data) { if (train_data.NumLabels() < 2) train_data.GetMutableInstances().resize(2); }
+		void PreprocessTestData(ADataView& test_data) {}
+
 		void InformTrainData(const ADataView& train_data, const DataSummary& train_summary);
 		void InformTestData(const ADataView& test_data, const DataSummary& test_summary);
 
-- 
2.43.0


From 72d8cd2b7b0865e4b94efc1223a2f9b5171819db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:49:25 +0000
Subject: [PATCH 64/74] fix: print and export trees whose feature names hold a
 " <= " without a number

A feature name such as "a <= b <= 3" or "low <= high" made print_tree and
export_dot fail. The name is now split at the last " <= ", and a right-hand
side that is not a finite number is printed as it is.
---
 pystreed/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pystreed/base.py b/pystreed/base.py
index 8c8b5f2..fbb8ca3 100644
--- a/pystreed/base.py
+++ b/pystreed/base.py
@@ -391,9 +391,12 @@ class BaseSTreeDSolver(BaseEstimator):
             return f"Feature {feature}"
         feature_name = feature_names[feature]
         if " <= " in feature_name:
-            feature_name, threshold = feature_name.split(" <= ")
+            feature_name, threshold = feature_name.rsplit(" <= ", 1)
             if len(threshold) >= 3:
-                threshold = _dynamic_float_formatter(float(threshold))
+                try:
+                    threshold = _dynamic_float_formatter(float(threshold))
+                except (ValueError, OverflowError):
+                    pass  # not a finite number: keep the name as supplied
             return f"{feature_name} {self.__comparator} {threshold}"
         return feature_name
 
-- 
2.43.0


From d1082ad022ab9f3c849d0d5e0d3b70f232960471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:00:45 +0000
Subject: [PATCH 65/74] fix: skip blank lines in data files

A blank line was read as an instance with label zero and uninitialised
features, which ended in an error about a non-binary symbol or in a wrong
data set.
---
 src/utils/file_reader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utils/file_reader.cpp b/src/utils/file_reader.cpp
index c6af07f..f629b1d 100644
--- a/src/utils/file_reader.cpp
+++ b/src/utils/file_reader.cpp
@@ -24,6 +24,9 @@ namespace STreeD {
 		test_data = ADataView(&data, instances_per_label, {});
 	}
 
+	// A line without any instance, such as an empty line at the end of the file
+	bool IsBlank(const std::string& line) { return line.find_first_not_of(" \t\r") == std::string::npos; }
+
 	// Read the file(s) specified in parameters, stores the instances in data, and provides train and test dataviews in train_data and test_data
 	template <class OT>
 	void FileReader::ReadData(ParameterHandler& parameters, AData& data, ADataView& train_data, ADataView& test_data, std::default_random_engine* rng) {
@@ -95,6 +98,7 @@ namespace STreeD {
 		if (!include_all) {
 			available_instances = 0;
 			while (std::getline(file, line)) {
+				if (IsBlank(line)) continue;
 				available_instances++;
 			}
 			file.clear();
@@ -114,6 +118,7 @@ namespace STreeD {
 		int line_no = -1;
 		int indices_no = 0;
 		while (std::getline(file, line)) {
+			if (IsBlank(line)) continue;
 			line_no++;			
 			if (!include_all && line_no != indices[indices_no]) continue;
 			indices_no++;
-- 
2.43.0


From 248ed9a2edb3258436100ee0658ce1c3df2af9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:00:45 +0000
Subject: [PATCH 66/74] fix: stratified train-test split of small regression
 data sets

Fewer than ten instances caused a division by zero. With few instances per
bin the rounding of every bin added up, so that for example no instance at
all ended up in a test set of forty percent of ten instances.
---
 src/model/data.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/model/data.cpp b/src/model/data.cpp
index d7cbd4d..c7ab9b8 100644
--- a/src/model/data.cpp
+++ b/src/model/data.cpp
@@ -77,18 +77,21 @@ namespace STreeD {
 				std::sort(instances.begin(), instances.end(), [](const AInstance*& i1, const AInstance*& i2) {
 					return GetInstanceLabel<double>(i1) > GetInstanceLabel<double>(i2);
 				});
-				int i = 0;
-				int bin_size = int(instances.size()) / _num_labels;
+				size_t i = 0;
 				for (auto& instance : instances) {
-					all_label_indices[std::min(i++ / bin_size, _num_labels-1)].push_back(instance->GetID());
+					all_label_indices[(i++ * _num_labels) / instances.size()].push_back(instance->GetID());
 				}
 
+				size_t num_binned = 0;
 				for (int y = 0; y < _num_labels; y++) {
 					std::vector<int> indices;
 					auto& label_indices = all_label_indices[y];
 					indices.assign(label_indices.begin(), label_indices.end());
 					std::shuffle(indices.begin(), indices.end(), *rng);
-					const int test_split_index = int(std::round(test_percentage * indices.size()));
+					// Round the running total, such that the rounding per bin does not add up
+					const int num_test_before = int(std::round(test_percentage * num_binned));
+					num_binned += indices.size();
+					const int test_split_index = int(std::round(test_percentage * num_binned)) - num_test_before;
 
 					auto begin = indices.begin();
 					auto split = indices.begin() + test_split_index;
-- 
2.43.0


From f6b0a8be7e90a496800150757a619d74dca6b9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:13:54 +0000
Subject: [PATCH 67/74] fix: ignore the upper bound of a subproblem when upper
 bounding is disabled

Leaf nodes were kept but subtrees pruned, so that a leaf could be stored as the
optimal solution of the subproblem.
---
 src/solver/solver.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 2cdfc8f..edd6939 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -293,7 +293,9 @@ namespace STreeD {
 		if (!stopwatch.IsWithinTimeLimit()) { return InitializeSol<OT>(); }
 
 		const Branch& branch = context.GetBranch();
-		auto UB = CopySol<OT>(UB_); // Make a copy  of the UB, because we are going to update it, but these updates should not be passed to higher nodes
+		// Make a copy  of the UB, because we are going to update it, but these updates should not be passed to higher nodes
+		// Without upper bounding, leaf nodes are not pruned by the UB. If subtrees were, a leaf node could be mistaken for the optimal solution
+		auto UB = solver_parameters.use_upper_bounding ? CopySol<OT>(UB_) : InitializeSol<OT>();
 
 		ReduceNodeBudget(data, context, UB, max_depth, num_nodes);
 
@@ -347,7 +349,7 @@ namespace STreeD {
 		}
 
 		// In all other cases, run the recursive general case
-		return SolveSubTreeGeneralCase(data, context, UB_, max_depth, num_nodes);
+		return SolveSubTreeGeneralCase(data, context, UB, max_depth, num_nodes);
 	}
 
 	template <class OT>
-- 
2.43.0


From cc98bd3b1921a45c868b0e5f616e4fdbf17eab2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:13:54 +0000
Subject: [PATCH 68/74] fix: root lower bounds before and after a search

The depth that the search has finished was not initialised and was kept after
the search, so that the lower bound of the root could exceed its optimum.
---
 include/solver/solver.h | 2 +-
 src/solver/solver.cpp   | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/solver/solver.h b/include/solver/solver.h
index c080397..85d019c 100644
--- a/include/solver/solver.h
+++ b/include/solver/solver.h
@@ -84,7 +84,7 @@ namespace STreeD {
 		DataSummary train_summary, test_summary;
 		DataSplitter data_splitter;
 		std::vector<int> feature_order;
-		int max_depth_finished;
+		int max_depth_finished{ 0 };
 
 		Statistics stats;
 		Stopwatch stopwatch;
diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index edd6939..3ca1f5e 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -171,6 +171,7 @@ namespace STreeD {
 				if (!stopwatch.IsWithinTimeLimit()) break;
 			}
 		}
+		max_depth_finished = 0; // Outside this search, smaller trees may be the solution again
 		
 		// A tree that is worse than the provided upper bound is not a solution
 		if constexpr (std::is_same<Solver<OT>::SolType, double>::value || std::is_same<Solver<OT>::SolType, int>::value) {
-- 
2.43.0


From e469258d7a0d649ee9246b3c162ecdd18a0e75dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:21:57 +0000
Subject: [PATCH 69/74] fix: do not reuse cost-sensitive solutions and bounds
 from other branches

The costs of a test depend on the tests before it, but the command-line program
shared solutions (dataset caching) and lower bounds (similarity) between
branches with the same or similar data.
---
 include/tasks/cost_sensitive.h | 1 +
 src/solver/solver.cpp          | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/include/tasks/cost_sensitive.h b/include/tasks/cost_sensitive.h
index 8746683..c29da2d 100644
--- a/include/tasks/cost_sensitive.h
+++ b/include/tasks/cost_sensitive.h
@@ -45,6 +45,7 @@ namespace STreeD {
 		static const bool total_order = true;
 		static const bool custom_leaf = false;
 		static const bool has_branching_costs = true;
+		static const bool element_additive = false; // deactivates the similarity lower bound, because the branching costs depend on the branch
 		static const bool element_branching_costs = false;
 		static const bool terminal_compute_context = true;
 		static const bool terminal_zero_costs_true_label = false; // True iff the costs of assigning the true label in the terminal is zero
diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 3ca1f5e..d5b35a2 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -276,6 +276,8 @@ namespace STreeD {
 	void Solver<OT>::ResetCache() {
 		if (cache != nullptr) delete cache;
 		cache = new Cache<OT>(parameters, MAX_DEPTH, train_data.Size());
+		// The costs of branching may depend on the branch, so subproblems with the same data can have different solutions
+		if constexpr (OT::has_branching_costs && !OT::constant_branching_costs) cache->DisableDatasetCaching();
 		if (!solver_parameters.use_lower_bounding) cache->DisableLowerBoundCaching();
 		// Only use the similarity lower bound computer if the optimization task is element-wise additive
 		if constexpr (OT::element_additive) {
-- 
2.43.0


From 8c83218d3cca17001eff8de10c43da02b313d465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:21:58 +0000
Subject: [PATCH 70/74] fix: do not cache the solutions of a search that the
 time limit interrupted

They were stored as optimal, so that reconstructing the tree failed and a later
search on the same data returned them.
---
 src/solver/solver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index d5b35a2..104d64e 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -537,6 +537,7 @@ namespace STreeD {
 		// If a feasible solution is found (better than the UB), store it in the cache
 		// Or update the LB for this branch
 		SetSolSizeBudget<OT>(solutions, max_depth, num_nodes);
+		if (!stopwatch.IsWithinTimeLimit()) { return solutions; } // The search is incomplete: these solutions may not be optimal
 		if (!CheckEmptySol<OT>(solutions)) {
 			cache->StoreOptimalBranchAssignment(data, branch, solutions, max_depth, num_nodes, orgUB);
 		} else {
-- 
2.43.0


From 62d8166134550202d954061b1e2567e399cb2267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:08:20 +0000
Subject: [PATCH 71/74] fix: reject cost files with missing values and skip
 empty lines in them

---
 src/tasks/cost_sensitive.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tasks/cost_sensitive.cpp b/src/tasks/cost_sensitive.cpp
index e65e06f..fe938ab 100644
--- a/src/tasks/cost_sensitive.cpp
+++ b/src/tasks/cost_sensitive.cpp
@@ -25,7 +25,7 @@ namespace STreeD {
 			double temp;
 			if (line_no < num_labels) {
 				for (int i = 0; i < num_labels; i++) {
-					iss >> temp;
+					if (!(iss >> temp)) throw std::invalid_argument("The cost file has an incomplete misclassification cost matrix.");
 					misclassification_costs[line_no][i] = temp;
 				}
 			} else if (line_no == num_labels) {
@@ -38,12 +38,13 @@ namespace STreeD {
 				std::string discount_group;
 				int binarize_begin_ix;
 				int binarize_end_ix;
-				iss >> attribute_name;
+				if (!(iss >> attribute_name)) continue; // skip empty lines
 				iss >> test_cost;
 				iss >> discount_cost;
 				iss >> discount_group;
 				iss >> binarize_begin_ix;
 				iss >> binarize_end_ix;
+				if (!iss) throw std::invalid_argument("The cost file has an incomplete feature cost description.");
 				feature_cost_specifiers.emplace_back(test_cost, discount_cost, discount_group, binarize_begin_ix, binarize_end_ix);
 			}
 		}
-- 
2.43.0


From 41be7d043fb370b035d06af436def44d26458537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:38:52 +0000
Subject: [PATCH 72/74] fix: no similarity lower bound for simple linear
 regression, its removals are not bounded by the label range

---
 include/tasks/regression/piecewise_simple_linear_regression.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tasks/regression/piecewise_simple_linear_regression.h b/include/tasks/regression/piecewise_simple_linear_regression.h
index efad5bf..6da72ff 100644
--- a/include/tasks/regression/piecewise_simple_linear_regression.h
+++ b/include/tasks/regression/piecewise_simple_linear_regression.h
@@ -51,7 +51,7 @@ namespace STreeD {
 		static const bool element_branching_costs = false;
 		static const bool constant_branching_costs = true;
 		static const bool custom_similarity_lb = true; 
-		static const bool element_additive = true; 
+		static const bool element_additive = false; // deactivates the similarity lower bound, because a linear model may be arbitrarily far from an instance it was not fitted to
 		static const bool use_terminal = true; 
 		static const bool terminal_zero_costs_true_label = false; // True iff the costs of assigning the true label in the terminal is zero
 		static constexpr double worst = DBL_MAX;
-- 
2.43.0


From ac6399cb30cfb6257c6f851184b7ce91d4b6370e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:38:27 +0000
Subject: [PATCH 73/74] fix: predict with the kind of linear model that was
 fitted, also after the simple parameter changed

---
 pystreed/regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystreed/regression.py b/pystreed/regression.py
index a45ce15..c17a452 100644
--- a/pystreed/regression.py
+++ b/pystreed/regression.py
@@ -221,7 +221,7 @@ class STreeDPiecewiseLinearRegressor(BaseSTreeDSolver):
         if not reset and cont_cols.shape[1] != self.n_continuous_columns_:
             raise ValueError(f"Expected {self.n_continuous_columns_} continuous columns, but found {cont_cols.shape[1]}.")
         self.n_continuous_columns_ = cont_cols.shape[1]
-        if self.simple:
+        if self.optimization_task == "simple-linear-regression": # the task of the last fit
             extra_data = [SimpleContinuousFeatureData(list(row)) for row in cont_cols]
         else:
             extra_data = [ContinuousFeatureData(list(row)) for row in cont_cols]
-- 
2.43.0


From 1e0b2f724db3c9501ccf57a5a09837821259a3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:38:27 +0000
Subject: [PATCH 74/74] fix: predict with the sensitive feature that was
 fitted, also after its parameter or the order of the columns changed

---
 pystreed/group_fair.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pystreed/group_fair.py b/pystreed/group_fair.py
index 71f1b45..d945865 100644
--- a/pystreed/group_fair.py
+++ b/pystreed/group_fair.py
@@ -123,7 +123,9 @@ class STreeDGroupFairnessClassifier(BaseSTreeDSolver):
         Binarize the feature data and move the sensitive feature first
         """
         binary_X = super()._binarize_data(X, y, categorical_columns, reset)
-        index = self._get_sensitive_feature_index(self._get_sensitive_column(X))
+        if reset:
+            self.sensitive_index_ = self._get_sensitive_feature_index(self._get_sensitive_column(X))
+        index = self.sensitive_index_
         order = [index, *range(0, index), *range(index + 1, binary_X.shape[1])]
         if isinstance(binary_X, pd.DataFrame):
             return binary_X.iloc[:, order]
-- 
2.43.0

