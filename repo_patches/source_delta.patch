From 1416f47b096dba190e14f6314b8b7a7c5ba0144a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 01/97] fix: progress newly unconstrained tasks in ID order,
 not in address order

The set of steps becoming unconstrained was ordered by pointer, so the search
(and thus the plan) depended on the memory layout of the process.
---
 src/Model.cpp | 2 +-
 src/Model.h   | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/Model.cpp b/src/Model.cpp
index 0782e92..a224f69 100644
--- a/src/Model.cpp
+++ b/src/Model.cpp
@@ -1054,7 +1054,7 @@ newlyReachedMLMs = new noDelIntSet();
 			potentialPredecessors.pop_front();
 			done.insert(ps2);
 			//cout << "GET " << ps2 << endl;
-			set<planStep *>::iterator iter = potentiallyFirst.find(ps2);
+			auto iter = potentiallyFirst.find(ps2);
 			if (iter != potentiallyFirst.end()) {
 				potentiallyFirst.erase(iter);
 				//cout << "ERASE " << ps2 << endl;
diff --git a/src/Model.h b/src/Model.h
index fa1b018..ec3b714 100644
--- a/src/Model.h
+++ b/src/Model.h
@@ -292,7 +292,14 @@ namespace progression {
 
 			void tarjan(int v);
 
-			set<planStep *> potentiallyFirst;
+			// ordered by ID (not by address) to keep the search deterministic
+			struct planStepIDLess {
+				bool operator()(const planStep *a, const planStep *b) const {
+					if (a->id != b->id) return a->id < b->id;
+					return std::less<const planStep *>()(a, b);
+				}
+			};
+			set<planStep *, planStepIDLess> potentiallyFirst;
 			set<planStep *> done;
 			forward_list<planStep *> potentialPredecessors;
 
-- 
2.43.0


From 85db6203795f1f2f69f05fbb2a8b74568f95444d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 02/97] fix: H2 pruning without SAT mutexes dereferenced
 missing effect vectors

---
 src/SearchEngine.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SearchEngine.cpp b/src/SearchEngine.cpp
index ccb04b8..c3c3626 100644
--- a/src/SearchEngine.cpp
+++ b/src/SearchEngine.cpp
@@ -229,7 +229,8 @@ int main(int argc, char *argv[]) {
 	bool trackContainedTasks = useTaskHash;
     Model* htn = new Model(trackContainedTasks, reachability, true, true);
 	htn->filename = inputFilename;
-	if (args_info.satmutexes_flag) htn->rintanenInvariants = true;
+	// H2-pruning needs the same vector representation as the mutexes
+	if (args_info.satmutexes_flag || string(args_info.pruning_arg) == "h2") htn->rintanenInvariants = true;
 	htn->read(inputStream);
 	assert(htn->isHtnModel);
 	searchNode* tnI = htn->prepareTNi(htn);
-- 
2.43.0


From c404e3a91ecdd0634038a6fde7d0c9c559308714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 03/97] fix: visited list compared f values that are not set
 yet in early goal test mode

---
 src/VisitedList.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/VisitedList.cpp b/src/VisitedList.cpp
index 8c22c10..7ab2491 100644
--- a/src/VisitedList.cpp
+++ b/src/VisitedList.cpp
@@ -568,7 +568,7 @@ bool VisitedList::insertVisi(searchNode *n) {
 			//cout << endl << endl << "Comp " << result << endl;
 			//other->printNode(cout);
 			if (result) {
-				if (other->fValue > n->fValue){
+				if (!noReopening && other->fValue > n->fValue){ // without re-opening, n may not have an f value yet
 					toRemove = other;
 					continue;
 				}
-- 
2.43.0


From abedbb0a26fea3174490ec07881f5d52fdace5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 04/97] fix: graph isomorphism check of the visited list
 ignored the mapping of shared successors

---
 src/VisitedList.cpp | 97 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 70 insertions(+), 27 deletions(-)

diff --git a/src/VisitedList.cpp b/src/VisitedList.cpp
index 7ab2491..cd84032 100644
--- a/src/VisitedList.cpp
+++ b/src/VisitedList.cpp
@@ -155,25 +155,64 @@ void to_dfs(planStep *s, vector<int> &seq) {
 }
 
 
-bool matchingDFS(searchNode *one, searchNode *other, planStep *oneStep, planStep *otherStep,
+// assigns the same colour to two steps if (at least) the structures of the network below and above them are equal.
+// Only steps of equal colour can be mapped to each other
+void colourSteps(planStep *head, map<planStep *, int> &colour, map<pair<int, vector<int>>, int> &ids) {
+    vector<planStep *> postOrder;
+    map<planStep *, vector<planStep *>> predecessors;
+    vector<pair<planStep *, int>> dfsStack;
+    predecessors[head];
+    dfsStack.push_back({head, 0});
+    while (!dfsStack.empty()) {
+        auto &[ps, next] = dfsStack.back();
+        if (next == ps->numSuccessors) {
+            postOrder.push_back(ps);
+            dfsStack.pop_back();
+            continue;
+        }
+        planStep *succ = ps->successorList[next++];
+        bool isNew = !predecessors.count(succ);
+        predecessors[succ].push_back(ps);
+        if (isNew) dfsStack.push_back({succ, 0});
+    }
+
+    auto colourOf = [&](int own, vector<int> neighbours) {
+        sort(neighbours.begin(), neighbours.end());
+        return ids.insert({{own, neighbours}, ids.size()}).first->second;
+    };
+    for (planStep *ps : postOrder) { // below
+        vector<int> neighbours;
+        for (int i = 0; i < ps->numSuccessors; i++) neighbours.push_back(colour[ps->successorList[i]]);
+        colour[ps] = colourOf((ps == head) ? -1 : ps->task, neighbours);
+    }
+    for (int i = postOrder.size() - 1; i >= 0; i--) { // above
+        vector<int> neighbours;
+        for (planStep *pred : predecessors[postOrder[i]]) neighbours.push_back(colour[pred]);
+        colour[postOrder[i]] = colourOf(-2 - colour[postOrder[i]], neighbours);
+    }
+}
+
+// pending contains the pairs of mapped steps whose successors have not been matched yet
+bool matchingDFS(map<planStep *, int> &oneColour, map<planStep *, int> &otherColour, list<pair<planStep *, planStep *>> pending,
                  map<planStep *, planStep *> mapping, map<planStep *, planStep *> backmapping);
 
 
 void getSortedTasks(planStep **network, int size, int *succ);
 
 bool matchingGenerate(
-        searchNode *one, searchNode *other,
+        map<planStep *, int> &oneColour, map<planStep *, int> &otherColour,
         map<planStep *, planStep *> &mapping, map<planStep *, planStep *> &backmapping,
         map<int, set<planStep *>> oneNextTasks,
         map<int, set<planStep *>> otherNextTasks,
-        unordered_set<int> tasks
+        unordered_set<int> tasks,
+        list<pair<planStep *, planStep *>> &pending
 ) {
-    if (tasks.size() == 0)
-        return true; // done, all children
+    if (tasks.size() == 0) // done, all children. Continue with the next pair under the mapping chosen so far
+        return matchingDFS(oneColour, otherColour, pending, mapping, backmapping);
 
     if (oneNextTasks[*tasks.begin()].size() == 0) {
         tasks.erase(*tasks.begin());
-        return matchingGenerate(one, other, mapping, backmapping, oneNextTasks, otherNextTasks, tasks);
+        return matchingGenerate(oneColour, otherColour, mapping, backmapping, oneNextTasks, otherNextTasks, tasks, pending);
     }
 
     int task = *tasks.begin();
@@ -192,39 +231,37 @@ bool matchingGenerate(
         if (backmapping.count(psOther) && backmapping[psOther] != psOne) continue;
 		DEBUG(cout << "\tOK" << endl);
 
-        bool subRes = true;
         map<planStep *, planStep *> subMapping = mapping;
         map<planStep *, planStep *> subBackmapping = backmapping;
+        list<pair<planStep *, planStep *>> subPending = pending;
 
         if (!mapping.count(psOne)) { // don't check again if we already did it
             subMapping[psOne] = psOther;
             subBackmapping[psOther] = psOne;
 
-            // run the DFS below this pair
-            subRes = matchingDFS(one, other, psOne, psOther, subMapping, subBackmapping);
+            // the steps below this pair have to be matched, too
+            subPending.push_front({psOne, psOther});
         }
 
+        map<int, set<planStep *>> subOtherNextTasks = otherNextTasks;
+        subOtherNextTasks[task].erase(psOther);
 
-        if (subRes) {
-            map<int, set<planStep *>> subOtherNextTasks = otherNextTasks;
-            subOtherNextTasks[task].erase(psOther);
-
-            // continue the extraction with the next task
-            if (matchingGenerate(one, other, subMapping, subBackmapping, oneNextTasks, subOtherNextTasks, tasks))
-                return true;
-        }
+        // continue the extraction with the next task
+        if (matchingGenerate(oneColour, otherColour, subMapping, subBackmapping, oneNextTasks, subOtherNextTasks, tasks, subPending))
+            return true;
     }
 
     return false; // did not find any valid matching
 }
 
-bool matchingDFS(searchNode *one, searchNode *other, planStep *oneStep, planStep *otherStep,
+bool matchingDFS(map<planStep *, int> &oneColour, map<planStep *, int> &otherColour, list<pair<planStep *, planStep *>> pending,
                  map<planStep *, planStep *> mapping, map<planStep *, planStep *> backmapping) {
+    if (pending.empty()) return true; // successors of all steps have been matched consistently
+    auto [oneStep, otherStep] = pending.front();
+    pending.pop_front();
 	if (oneStep->numSuccessors != otherStep->numSuccessors) return false; // is not possible
-    if (oneStep->numSuccessors == 0) return true; // no successors, matching OK
-
 
-    // groups the successors into buckets according to their task labels
+    // groups the successors into buckets according to their colours
     map<int, set<planStep *>> oneNextTasks;
     map<int, set<planStep *>> otherNextTasks;
     unordered_set<int> tasks;
@@ -233,20 +270,20 @@ bool matchingDFS(searchNode *one, searchNode *other, planStep *oneStep, planStep
 
     for (int i = 0; i < oneStep->numSuccessors; i++) {
         planStep *ps = oneStep->successorList[i];
-        oneNextTasks[ps->task].insert(ps);
-        tasks.insert(ps->task);
+        oneNextTasks[oneColour[ps]].insert(ps);
+        tasks.insert(oneColour[ps]);
 		DEBUG(cout << "\tone: " << ps->task << endl);
     }
     for (int i = 0; i < otherStep->numSuccessors; i++) {
         planStep *ps = otherStep->successorList[i];
-        otherNextTasks[ps->task].insert(ps);
-        tasks.insert(ps->task);
+        otherNextTasks[otherColour[ps]].insert(ps);
+        tasks.insert(otherColour[ps]);
 		DEBUG(cout << "\tother: " << ps->task << endl);
     }
 
     for (int t : tasks) if (oneNextTasks[t].size() != otherNextTasks[t].size()) return false;
 
-    return matchingGenerate(one, other, mapping, backmapping, oneNextTasks, otherNextTasks, tasks);
+    return matchingGenerate(oneColour, otherColour, mapping, backmapping, oneNextTasks, otherNextTasks, tasks, pending);
 }
 
 
@@ -265,12 +302,18 @@ bool matching(searchNode *one, searchNode *other) {
     planStep *oneHead = searchNodePSHead(one);
     planStep *otherHead = searchNodePSHead(other);
 
+    // the networks may share steps, but have different predecessors for them
+    map<planStep *, int> oneColour, otherColour;
+    map<pair<int, vector<int>>, int> ids;
+    colourSteps(oneHead, oneColour, ids);
+    colourSteps(otherHead, otherColour, ids);
+
     map<planStep *, planStep *> mapping;
     map<planStep *, planStep *> backmapping;
     mapping[oneHead] = otherHead;
     backmapping[otherHead] = oneHead;
 
-    bool result = matchingDFS(one, other, oneHead, otherHead, mapping, backmapping);
+    bool result = matchingDFS(oneColour, otherColour, {make_pair(oneHead, otherHead)}, mapping, backmapping);
 
     //delete oneHead;
     //delete otherHead;
-- 
2.43.0


From 8c7af2df795fd851f2682f3184efc73d9740e0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 05/97] fix: visited list forgot nodes inserted with f value -1

---
 src/VisitedList.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/VisitedList.cpp b/src/VisitedList.cpp
index cd84032..1a48990 100644
--- a/src/VisitedList.cpp
+++ b/src/VisitedList.cpp
@@ -591,7 +591,7 @@ bool VisitedList::insertVisi(searchNode *n) {
 				returnValue = true;
 
 			if (returnValue)
-				*payload = (void*) costOfInsertedNode; // now the hash is known at the given cost
+				*payload = (void*) ((1ULL << 32) | (uint32_t) costOfInsertedNode); // now the hash is known at the given cost (and never null)
 		}
 		
 		std::clock_t after = std::clock();
-- 
2.43.0


From 13091880cf48a34ca1acc23901711ede9749e090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:26 +0000
Subject: [PATCH 06/97] fix: SAT encoding of partial order let effect-less
 actions overtake their predecessors

---
 src/sat/partial_order.cpp |  9 ++++++---
 src/sat/sat_planner.cpp   | 35 ++++++++++++++++++++---------------
 src/sat/state_formula.cpp |  4 ++--
 3 files changed, 28 insertions(+), 20 deletions(-)

diff --git a/src/sat/partial_order.cpp b/src/sat/partial_order.cpp
index 5d52986..0767013 100644
--- a/src/sat/partial_order.cpp
+++ b/src/sat/partial_order.cpp
@@ -151,11 +151,14 @@ void generate_matching_formula(void* solver, sat_capsule & capsule, Model * htn,
 	}
 
 
-	// if leaf l @ position p, then any successor of l is forbidden at p-1
+	// if leaf l @ position p, then any successor of l is forbidden at p-1.
+	// If l may contain an action with effects, its successors are also forbidden at p, as
+	// the actions without effects at p are executed before the effects at p take place
 	for (int l = 0; l < leafSOG->numberOfVertices; l++){
+		int offset = leafSOG->leafContainsEffectAction[l] ? 0 : 1;
 		for (int lSucc : leafSOG->adj[l]){
-			for (int p = 1; p < vars.size(); p++){
-				implies(solver,matching.matchingPerLeaf[l][p],forbiddenPerLeaf[lSucc][p-1]);
+			for (int p = offset; p < vars.size(); p++){
+				implies(solver,matching.matchingPerLeaf[l][p],forbiddenPerLeaf[lSucc][p-offset]);
 			}
 		}
 	}
diff --git a/src/sat/sat_planner.cpp b/src/sat/sat_planner.cpp
index ee86171..60b24ea 100644
--- a/src/sat/sat_planner.cpp
+++ b/src/sat/sat_planner.cpp
@@ -7,6 +7,7 @@
 #include "partial_order.h"
 #include "../Util.h"
 #include "../Invariants.h"
+#include <algorithm>
 #include <cassert>
 #include <thread> 
 #include <chrono>
@@ -96,22 +97,26 @@ pair<int,int> printSolution(void * solver, Model * htn, PDT* pdt, MatchingData &
 	
 	// if po output the primitive plan now
 	if (!htn->isTotallyOrdered){
+		// leafs at the same position: first those without effects in an order compatible with the leaf SOG, then the one with effects
+		vector<int> leafOrder;
+		for (int l = 0; l < matching.leafSOG->numberOfVertices; l++) leafOrder.push_back(l);
+		stable_sort(leafOrder.begin(), leafOrder.end(), [&](int l1, int l2){
+			bool e1 = matching.leafSOG->leafContainsEffectAction[l1], e2 = matching.leafSOG->leafContainsEffectAction[l2];
+			if (e1 != e2) return e2;
+			return matching.leafSOG->successorSet[l1].size() > matching.leafSOG->successorSet[l2].size();
+		});
+
 		for (int p = 0; p < matching.matchingPerPosition.size(); p++){
-			for (auto [pvar, prim] : matching.vars[p]){
-				if (ipasir_val(solver,pvar) > 0){
-					// find the if of the matched leaf
-					for (int l = 0; l < matching.matchingPerPosition[p].size(); l++){
-						if (ipasir_val(solver,matching.matchingPerPosition[p][l]) > 0
-								&& matching.leafSOG->leafOfNode[l]->outputTask == prim){
-							// get the output number of that leaf
-							PDT * leaf = matching.leafSOG->leafOfNode[l];
-							solutionCost += htn->actionCosts[prim];
-							trueSolutionCost += originalActionCosts[prim];
-							leafsWithTask.push_back({leaf,l});
-							std::cout << leaf->outputID << " " << htn->taskNames[prim] << endl;
-						}
-					}
-				}
+			for (int l : leafOrder){
+				if (ipasir_val(solver,matching.matchingPerPosition[p][l]) <= 0) continue;
+				// get the output number of that leaf
+				PDT * leaf = matching.leafSOG->leafOfNode[l];
+				int prim = leaf->outputTask;
+				if (prim < 0 || prim >= htn->numActions) continue;
+				solutionCost += htn->actionCosts[prim];
+				trueSolutionCost += originalActionCosts[prim];
+				leafsWithTask.push_back({leaf,l});
+				std::cout << leaf->outputID << " " << htn->taskNames[prim] << endl;
 			}
 		}
 	}
diff --git a/src/sat/state_formula.cpp b/src/sat/state_formula.cpp
index 955d8f5..2a6d33a 100644
--- a/src/sat/state_formula.cpp
+++ b/src/sat/state_formula.cpp
@@ -275,8 +275,8 @@ void get_partial_state_atoms(sat_capsule & capsule, Model * htn, SOG* sog, vecto
 		sog->leafContainsEffectAction[t] = actualAction;
 	}
 	int numberOfTimeSteps = sog->numberOfVertices - leafsWithoutActualActions;
-	numberOfTimeSteps = numberOfTimeSteps;
-	if (numberOfTimeSteps == 0) numberOfTimeSteps = 1;
+	// actions without effects may have to be executed after the last action with effects
+	if (leafsWithoutActualActions > 0 || numberOfTimeSteps == 0) numberOfTimeSteps++;
 	
 	cout << "Total Leafs: " << sog->numberOfVertices << " of that without effect-actions " << leafsWithoutActualActions << " remaining: " << numberOfTimeSteps << endl;
 
-- 
2.43.0


From 93192e7888c421fcbf691b1581e3b010632c32be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:31 +0000
Subject: [PATCH 07/97] fix: SAT cost bound counted actions sharing a position
 of a partially ordered plan only once

---
 src/sat/sat_planner.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/sat/sat_planner.cpp b/src/sat/sat_planner.cpp
index 60b24ea..1c03147 100644
--- a/src/sat/sat_planner.cpp
+++ b/src/sat/sat_planner.cpp
@@ -487,10 +487,16 @@ bool createFormulaForDepth(void* solver, PDT* pdt, Model * htn, sat_capsule & ca
 
 	if (costMode){
 		vector<int> costVars;
-		for (int t = 0; t < vars.size(); t++){
+		// In a partially ordered model several (effect-less) actions may share a position, so count costs per leaf
+		vector<vector<pair<int,int>>> costAtoms = vars;
+		if (!htn->isTotallyOrdered){
+			costAtoms.clear();
+			get_linear_state_atoms(capsule, leafs, costAtoms);
+		}
+		for (int t = 0; t < costAtoms.size(); t++){
 			// maximum cost per time step
 			int maxCost = 0;
-			for (const auto & [varID,taskID] : vars[t])
+			for (const auto & [varID,taskID] : costAtoms[t])
 				maxCost = max(maxCost,htn->actionCosts[taskID]);
 			//cout << "\tMaximum Cost Time " << t << " is " << maxCost << endl;
 
@@ -501,7 +507,7 @@ bool createFormulaForDepth(void* solver, PDT* pdt, Model * htn, sat_capsule & ca
 				//cout << "\tC=" << c << endl;
 				int cvar = capsule.new_variable();
 				DEBUG(capsule.registerVariable(cvar,"cost var " + pad_int(c) + " @ " + pad_int(t)));
-				for (const auto & [varID,taskID] : vars[t])
+				for (const auto & [varID,taskID] : costAtoms[t])
 					if (htn->actionCosts[taskID]/costFactor >= c)
 						implies(solver,varID,cvar);
 					else
-- 
2.43.0


From cfdb894a8f6dae0394f73fc74d2deb806930bf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:31 +0000
Subject: [PATCH 08/97] fix: SAT plan optimisation ignored the first cost bound
 and continued after a plan with cost 0

---
 src/sat/sat_planner.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sat/sat_planner.cpp b/src/sat/sat_planner.cpp
index 1c03147..aa14237 100644
--- a/src/sat/sat_planner.cpp
+++ b/src/sat/sat_planner.cpp
@@ -725,10 +725,12 @@ void optimise_with_sat_planner_linear_bound_increase(Model * htn, bool block_com
 	pdt = new PDT(htn);
 
 	costMode = true;
+	if (currentCost < 1000)
+		costFactor = 1; // otherwise the bound would be meaningless
 	currentMaximumCost = currentCost - 1;
 	int lastImprovedDepth = depth;
 
-	while (true){
+	while (currentMaximumCost >= 0){ // a plan without costs cannot be improved
 		void* solver = ipasir_init();
 		cout << endl << endl << color(Color::YELLOW, "Generating formula for depth " + to_string(depth) + " and cost " + to_string(currentMaximumCost)) << endl;
 		std::clock_t formula_start = std::clock();
-- 
2.43.0


From 42a7302c237ff9cede517163325bd9633f16913f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:11 +0000
Subject: [PATCH 09/97] fix: SOGs of partially ordered methods ordered vertices
 that are unordered in a method

---
 src/sat/sog.cpp | 56 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 17 deletions(-)

diff --git a/src/sat/sog.cpp b/src/sat/sog.cpp
index 9ccc8d8..ae9c6b2 100644
--- a/src/sat/sog.cpp
+++ b/src/sat/sog.cpp
@@ -5,9 +5,29 @@
 #include "pdt.h"
 
 
+// The order of the SOG is kept transitively closed while it is constructed.
+// Determines whether vertex v can be ordered after all vertices in before and before all vertices in after, i.e. whether this
+// neither creates a cycle nor orders vertices that must not be ordered (antiAdj). Both sets are extended to their transitive closure.
+static bool closeOrder(SOG* sog, vector<unordered_set<uint16_t>> & antiAdj, int v, unordered_set<uint16_t> & before, unordered_set<uint16_t> & after){
+	unordered_set<uint16_t> closedBefore = sog->bdj[v], closedAfter = sog->adj[v];
+	for (int x : before) closedBefore.insert(x), closedBefore.insert(sog->bdj[x].begin(), sog->bdj[x].end());
+	for (int y : after) closedAfter.insert(y), closedAfter.insert(sog->adj[y].begin(), sog->adj[y].end());
+	before = closedBefore;
+	after = closedAfter;
+
+	if (before.count(v) || after.count(v)) return false;
+	for (int y : after)
+		if (antiAdj[v].count(y)) return false;
+	for (int x : before) {
+		if (after.count(x) || antiAdj[x].count(v)) return false;
+		for (int y : after)
+			if (antiAdj[x].count(y)) return false;
+	}
+	return true;
+}
+
 SOG* runPOSOGOptimiser(SOG* sog, vector<tuple<uint32_t,uint32_t,uint32_t>> & methods, Model* htn, bool effectLessActionsInSeparateLeaf){
 	vector<unordered_set<uint16_t>> antiAdj;
-	vector<unordered_set<uint16_t>> antiBdj;
 	int m0 = get<0>(methods[0]);
 	// put the subtasks of the first method into the SOG
 	sog->numberOfVertices = htn->numSubTasks[m0];
@@ -15,7 +35,6 @@ SOG* runPOSOGOptimiser(SOG* sog, vector<tuple<uint32_t,uint32_t,uint32_t>> & met
 	sog->adj.resize(sog->numberOfVertices);
 	sog->bdj.resize(sog->numberOfVertices);
 	antiAdj.resize(sog->numberOfVertices);
-	antiBdj.resize(sog->numberOfVertices);
 	vector<uint16_t> mapping;
 	unordered_set<int> vertices_for_effectless_actions;
 	for (size_t i = 0; i < sog->numberOfVertices; i++){
@@ -39,7 +58,6 @@ SOG* runPOSOGOptimiser(SOG* sog, vector<tuple<uint32_t,uint32_t,uint32_t>> & met
 			if (i == j) continue;
 			if (sog->adj[i].count(j)) continue;
 			antiAdj[i].insert(j);
-			antiBdj[j].insert(i);
 		}
 	
 	// merge the vertices of the other methods
@@ -64,23 +82,22 @@ SOG* runPOSOGOptimiser(SOG* sog, vector<tuple<uint32_t,uint32_t,uint32_t>> & met
 				if (effectLessActionsInSeparateLeaf && isEffectless != vertices_for_effectless_actions.count(v)) continue;
 				
 				// check all previous tasks of this method
+				unordered_set<uint16_t> before, after;
 				for (size_t ostID = 0; ostID < stID; ostID++){
 					int otherSubTask = htn->methodTotalOrder[m][ostID];
 					int ov = mapping[otherSubTask]; // vertex of other task
 					
 					if (htn->methodSubTasksSuccessors[m][subTask].count(otherSubTask)){
-						if (sog->bdj[v].count(ov)) goto next_vertex;
-						if (antiAdj[v].count(ov)) goto next_vertex;
+						after.insert(ov);
 					} else if (htn->methodSubTasksPredecessors[m][subTask].count(otherSubTask)){
-						
-						if (sog->adj[v].count(ov)) goto next_vertex;
-						if (antiBdj[v].count(ov)) goto next_vertex;
+						before.insert(ov);
 					} else {
 						// no order is allowed to be present
 						if (sog->adj[v].count(ov)) goto next_vertex;
 						if (sog->bdj[v].count(ov)) goto next_vertex;
 					}
 				}
+				if (!closeOrder(sog, antiAdj, v, before, after)) goto next_vertex;
 			
 				// if we reached this point, this vertex is ok
 				matchingVertices.push_back(v);
@@ -97,7 +114,6 @@ next_vertex:;
 				sog->adj.push_back(_temp16);
 				sog->bdj.push_back(_temp16);
 				antiAdj.push_back(_temp16);
-				antiBdj.push_back(_temp16);
 			}
 
 
@@ -140,27 +156,33 @@ next_vertex:;
 			if (myTask < htn->numActions && (htn->numAdds[myTask] == 0 && htn->numDels[myTask] == 0)) vertices_for_effectless_actions.insert(v);
 
 			// add the vertices and anti-vertices needed for this new node
+			unordered_set<uint16_t> before, after;
 			for (size_t ostID = 0; ostID < stID; ostID++){
 				int otherSubTask = htn->methodTotalOrder[m][ostID];
 				int ov = mapping[otherSubTask]; // vertex of other task
 				
 				if (htn->methodSubTasksSuccessors[m][subTask].count(otherSubTask)){
-					sog->adj[v].insert(ov);
+					after.insert(ov);
 					antiAdj[ov].insert(v);
-					sog->bdj[ov].insert(v);
-					antiBdj[v].insert(ov);
 				} else if (htn->methodSubTasksPredecessors[m][subTask].count(otherSubTask)){
-					sog->adj[ov].insert(v);
+					before.insert(ov);
 					antiAdj[v].insert(ov);
-					sog->bdj[v].insert(ov);
-					antiBdj[ov].insert(v);
 				} else {
 					antiAdj[v].insert(ov);
 					antiAdj[ov].insert(v);
-					antiBdj[v].insert(ov);
-					antiBdj[ov].insert(v);
 				}
 			}
+			closeOrder(sog, antiAdj, v, before, after);
+			for (int x : before){
+				sog->adj[x].insert(v);
+				sog->adj[x].insert(after.begin(), after.end());
+			}
+			for (int y : after){
+				sog->bdj[y].insert(v);
+				sog->bdj[y].insert(before.begin(), before.end());
+			}
+			sog->adj[v].insert(after.begin(), after.end());
+			sog->bdj[v].insert(before.begin(), before.end());
 		}
 		sog->methodSubTasksToVertices.push_back(mapping);
 	}
-- 
2.43.0


From 5717f43b5a92c8bb59735002d0257bb9c0123fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:01 +0000
Subject: [PATCH 10/97] fix: interactive mode accessed the task network with
 unchecked choices, also after the end of the input or of the network

---
 src/interactivePlanner.cpp | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/interactivePlanner.cpp b/src/interactivePlanner.cpp
index 1e00b7f..bc5a6c0 100644
--- a/src/interactivePlanner.cpp
+++ b/src/interactivePlanner.cpp
@@ -4,6 +4,22 @@
 #include <iostream>
 
 
+// asks until a valid choice is given, at the end of the input the program stops
+static int readChoice(int min, int max){
+	int choice;
+	while(true) {
+		if (cin >> choice) {
+			if (choice >= min && choice <= max) return choice;
+		} else {
+			if (cin.eof()) exit(0);
+			cin.clear();
+			string ignored;
+			cin >> ignored;
+		}
+		cout << "Invalid choice." << endl;
+	}
+}
+
 void interactivePlanner(Model* htn, searchNode* tnI){
 	cout << "YouPlan!" << endl;
 	while(true) {
@@ -14,12 +30,16 @@ void interactivePlanner(Model* htn, searchNode* tnI){
         for(int i = 0; i < tnI->numPrimitive; i++){
             cout << j++ << " " << htn->taskNames[tnI->unconstraintPrimitive[i]->task] << endl;
         }
+        if (j == 0) {
+            cout << "No tasks left." << endl;
+            break;
+        }
         int step;
 	    cout << "What to do?" << endl;
 	    if (j == 1)
 	        step = 0;
 	    else
-            cin >> step;
+            step = readChoice(-2, j - 1);
         if(step == -2) break;
         if(step == -1) exit(0);
         if(step < tnI->numAbstract) {
@@ -29,12 +49,17 @@ void interactivePlanner(Model* htn, searchNode* tnI){
                 int m = htn->taskToMethods[t][i];
                 cout << i << " " << htn->methodNames[m] << endl;
             }
+            if (i == 0) {
+                cout << "This task has no method." << endl;
+                if (j == 1) break;
+                continue;
+            }
             cout << "Which method to use?" << endl;
             int step2;
             if (i == 1)
                 step2 = 0;
             else
-                cin >> step2;
+                step2 = readChoice(0, i - 1);
             int m = htn->taskToMethods[t][step2];
             tnI = htn->decompose(tnI, step, m);
         } else {
-- 
2.43.0


From 2211adfc58bc99c3b7c7f2beeb3d30ceb97b9578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:35 +0000
Subject: [PATCH 11/97] fix: SAS+ translation put initial facts into wrong
 variables when fewer facts than variables are true

---
 src/translation/htnToSAS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index f0833df..e109800 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -174,7 +174,7 @@ void HTNToSASTranslation::sasPlus(){
   for (int i = 0; i < htn->s0Size; i++){
     int j = 0;
     while (true){
-      if (j >= htn->s0Size || htn->firstIndex[j] > htn->s0List[i]){
+      if (j >= htn->numVars || htn->firstIndex[j] > htn->s0List[i]){
         j--;
         break;
       }
-- 
2.43.0


From 7e8aa1c8dd3d02b1eee5456ab3b36e858804beea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 12/97] fix: translation mixed up the order of subtasks that
 are not listed in (or against) their order

---
 src/translation/htnToSAS.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index e109800..ecb4a8f 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -345,7 +345,6 @@ void HTNToSASTranslation::reorderTasks(bool warning){
             }
             if (htn->ordering[i][2 * l] == subs[m]){
               alreadyUsed = true;
-              break;
             }
           }
           if (ka){
@@ -369,15 +368,18 @@ void HTNToSASTranslation::reorderTasks(bool warning){
     }
 
     // reordering tasks and adjusting restrictions
+    int* position = new int[htn->numSubTasks[i]];
     for (int j = 0; j < htn->numSubTasks[i]; j++){
-      subTasksInOrder[i][j] = htn->subTasks[i][htn->numSubTasks[i] - 1 - subs[j]];
+      position[subs[j]] = htn->numSubTasks[i] - 1 - j;
+      subTasksInOrder[i][htn->numSubTasks[i] - 1 - j] = htn->subTasks[i][subs[j]];
     }
     for (int j = 0; j < htn->numOrderings[i]; j++){
-      htn->ordering[i][j] = htn->numSubTasks[i] - 1 - subs[htn->ordering[i][j]];
+      htn->ordering[i][j] = position[htn->ordering[i][j]];
     }
+    delete[] position;
     // evaluating number of primitive tasks in front
     for (int j = 0; j < htn->numSubTasks[i]; j++){
-      if (htn->isPrimitive[htn->subTasks[i][j]]){
+      if (htn->isPrimitive[subTasksInOrder[i][htn->numSubTasks[i] - 1 - j]]){
         firstNumTOPrimTasks[i]++;
       }
       else {
-- 
2.43.0


From 97dd8238d50aacdf9c0180e6a32b741afc8572c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 13/97] fix: push encoding wrote uninitialised conditional
 effects, and none at all for the type pocond

---
 src/translation/htnToSAS.cpp              | 4 ++--
 src/translation/translationController.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index ecb4a8f..d0c5583 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -716,9 +716,9 @@ int HTNToSASTranslation::htnToCondSorted(int pgb) {
   index = methodTaskIndex;
   for (int i = 0; i < htn->numTasks; i++) {
     for (int j = 0; j < (pgb - 1); j++){
-      numConditionalEffectsTrans[index] = pgb;
+      numConditionalEffectsTrans[index] = pgb - 2;
       if (j > 0){
-        numConditionalEffectsTrans[index] = pgb + 2;
+        numConditionalEffectsTrans[index] = pgb;
       }
       effectConditionsTrans[index] = new int*[numConditionalEffectsTrans[index]];
       numEffectConditionsTrans[index] = new int[numConditionalEffectsTrans[index]];
diff --git a/src/translation/translationController.cpp b/src/translation/translationController.cpp
index aa36173..81e9c11 100644
--- a/src/translation/translationController.cpp
+++ b/src/translation/translationController.cpp
@@ -69,7 +69,7 @@ void printSASToFile(HTNToSASTranslation * translation, TranslationType transtype
     gettimeofday(&tp, NULL);
     startT = tp.tv_sec * 1000 + tp.tv_usec / 1000;
     cout << "Printing HTN model to file \"" << sasfile << "\" ... ";
-    translation->writeToFastDown(sasfile, transtype == Push, realCosts);
+    translation->writeToFastDown(sasfile, transtype == Push || transtype == BaseCondEffects, realCosts);
     gettimeofday(&tp, NULL);
     currentT = tp.tv_sec * 1000 + tp.tv_usec / 1000;
     cout << " (" << (currentT - startT) << " ms)" << endl;
-- 
2.43.0


From 6bedb08ba1813f72a10dc981a747b38b9c9e503d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 14/97] fix: TO translation merged leading primitive tasks with
 contradicting preconditions

---
 src/translation/htnToSAS.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index d0c5583..177c2cb 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -265,13 +265,12 @@ int HTNToSASTranslation::calculatePrecsAndAdds(int* s, int* p, int* a, string ta
     int start = -1;
     int end = -1;
     for (int j = 0; j < nT; j++){
-      if (end == -1){
-        if (start == -1){
-          start = varChange[i][2 * j];
-        }
+      int current = end != -1 ? end : start;
+      if (current == -1){
+        start = varChange[i][2 * j];
       }
-      else if (varChange[i][2 * j] != -1 && end != varChange[i][2 * j]){
-        cerr << endl << "variable: " << i << ", value old: " << end << ", value should be: " << varChange[i][2 * j] << endl;
+      else if (varChange[i][2 * j] != -1 && current != varChange[i][2 * j]){
+        cerr << endl << "variable: " << i << ", value old: " << current << ", value should be: " << varChange[i][2 * j] << endl;
         for (int j = 0; j < htn->numVars; j++){
           delete[] varChange[j];
         }
-- 
2.43.0


From b567d20089221f8afd5ee1f92b18d0e7124af3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 15/97] fix: empty tasks of the translation were charged the
 costs of unrelated actions

---
 src/translation/htnToSAS.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index 177c2cb..597f0da 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -2348,7 +2348,8 @@ void HTNToSASTranslation::writeToFastDown(string sasName, bool hasCondEff, bool
         }
         sasfile << cost << " " << var0 << " " << preco << " " << var1 << endl;
       }
-      sasfile << this->actionCostsTrans[i] << endl;
+      // empty tasks are no actions of the HTN problem
+      sasfile << 0 << endl;
       sasfile << "end_operator" << endl;
       for (int j = 0; j < numP; j++){
         delete[] precs[j];
-- 
2.43.0


From 8ccc1c14a07d945389f5ca7196b1aa3476bb1aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:30 +0000
Subject: [PATCH 16/97] fix: plan of the translation assigned subtasks to wrong
 plan steps

---
 src/translation/htnToSAS.cpp | 50 +++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index 597f0da..89f703e 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -2586,6 +2586,7 @@ void HTNToSASTranslation::planToHddl(string infile, string outfile) {
     int* primIndex = new int[primNumMax];
     int** subHeads = new int*[methNumMax];
     bool** subHeadsFixed = new bool*[methNumMax];
+    int** subIndex = new int*[methNumMax]; // index of the plan step that realises the subtask
     bool* hasPrimIndezes = new bool[methNumMax];
     int** firstPrimIndezes = new int*[methNumMax];
     int* order = new int[linecount];
@@ -2606,6 +2607,7 @@ void HTNToSASTranslation::planToHddl(string infile, string outfile) {
           for (int k = 0; k < htn->numSubTasks[methIndex[j]]; k++){
             if (subHeadsFixed[j][k] == false && subHeads[j][k] == heads[i]){
               subHeadsFixed[j][k] = true;
+              subIndex[j][k] = order[i];
 			  repl = true;
               break;
             }
@@ -2623,6 +2625,21 @@ void HTNToSASTranslation::planToHddl(string infile, string outfile) {
         methIndex[methNum] = stoi(plan[i].substr(plan[i].find("id") + 3, plan[i].find("]", plan[i].find("id"), 1) - plan[i].find("id") - 3));
         order[i] = methNum + primNumMax;
         heads[i] = stoi(plan[i].substr(plan[i].find("head") + 5, plan[i].find("]", plan[i].find("head"), 1) - plan[i].find("head") - 5));
+        for (int j = methNum - 1; j >= 0; j--){
+          bool repl = false;
+          for (int k = 0; k < htn->numSubTasks[methIndex[j]]; k++){
+            if (subHeadsFixed[j][k] == false && subHeads[j][k] == heads[i]){
+              subHeadsFixed[j][k] = true;
+              subIndex[j][k] = order[i];
+              repl = true;
+              break;
+            }
+          }
+          if (repl){
+            break;
+          }
+        }
+        subIndex[methNum] = new int[htn->numSubTasks[methIndex[methNum]]];
         subHeads[methNum] = new int[htn->numSubTasks[methIndex[methNum]]];
         subHeadsFixed[methNum] = new bool[htn->numSubTasks[methIndex[methNum]]];
         int index = plan[i].find("firstPrim");
@@ -2647,6 +2664,10 @@ void HTNToSASTranslation::planToHddl(string infile, string outfile) {
             primNum++;
           }
         }
+        for (int j = 0; j < htn->numSubTasks[methIndex[methNum]]; j++){
+          subHeadsFixed[methNum][j] = true;
+          subIndex[methNum][j] = -1;
+        }
         index = plan[i].find("subtasks");
         if (index < plan[i].length()){
           string s = plan[i].substr(index + 9, plan[i].find("]", index, 1) - index - 9);
@@ -2659,7 +2680,8 @@ void HTNToSASTranslation::planToHddl(string infile, string outfile) {
             else {
               subHeads[methNum][j] = stoi(s);
             }
-          	subHeadsFixed[methNum][j] = false;
+            // leading primitive tasks are realised by the method itself
+            subHeadsFixed[methNum][j] = hasPrimIndezes[methNum] && j >= htn->numSubTasks[methIndex[methNum]] - firstNumTOPrimTasks[methIndex[methNum]];
 		  }
         }
         methNum++;
@@ -2702,31 +2724,7 @@ void HTNToSASTranslation::planToHddl(string infile, string outfile) {
         }
       }
       for (int j = htn->numSubTasks[m] - 1 - fntopt; j >= 0; j--){
-	int index = -1;
-        for (int k = o + 1; k < linecount - 1; k++){
-          if (order[k] == -1){
-            continue;
-          }
-          if (order[k] < primNumMax){
-            if (primIndex[order[k]] == subTasksInOrder[m][j]){
-              if (heads[k] != subHeads[i][j]){
-                continue;
-              }
-              index = order[k];
-              break;
-            }
-          }
-          else {
-            if (subTasksInOrder[m][j] == htn->decomposedTask[methIndex[order[k]-primNumMax]]){
-              if (heads[k] != subHeads[i][j]){
-                continue;
-              }
-              index = order[k];
-              break;
-            }
-          }
-        }
-        fout << index << " ";
+        fout << subIndex[i][j] << " ";
       }
       fout << endl;
     }
-- 
2.43.0


From 2f9eac86d43c0f0cb751cde0d23ccf9f0eb5290f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:47 +0000
Subject: [PATCH 17/97] fix: PO STRIPS translation took methods with a first
 task for methods with a last task

---
 src/translation/htnToSAS.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index 89f703e..dcf154a 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -393,14 +393,14 @@ void HTNToSASTranslation::reorderTasks(bool warning){
     }
     else {
       bool* lower = new bool[htn->numSubTasks[i]];
-      for (int j = 0; j < htn->numSubTasks[i] - 1; j++){
+      for (int j = 0; j < htn->numSubTasks[i]; j++){
         lower[j] = false;
       }
-      lower[htn->numSubTasks[i] - 1] = true;
+      lower[0] = true; // the last task, find all tasks that are ordered before it
       for (int j = 0; j < htn->numSubTasks[i] - 1; j++){
         for (int k = 0; k < htn->numOrderings[i] / 2; k++){
-          if (lower[htn->ordering[i][2 * k]]){
-            lower[htn->ordering[i][2 * k + 1]] = true;
+          if (lower[htn->ordering[i][2 * k + 1]]){
+            lower[htn->ordering[i][2 * k]] = true;
           }
         }
       }
-- 
2.43.0


From c6b895b9b6f466cbc5bad5abb001af0f99597994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:19 +0000
Subject: [PATCH 18/97] fix: custom configuration of the external planner was
 glued to the plan file name

---
 src/translation/translationController.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/translation/translationController.cpp b/src/translation/translationController.cpp
index 81e9c11..543b6a0 100644
--- a/src/translation/translationController.cpp
+++ b/src/translation/translationController.cpp
@@ -84,7 +84,7 @@ int runFD(string sasfile, string solver, string downwardConf, string & planFileN
 	else if (downwardConf == "ehc-ff()")
 		command += string(" --evaluator 'hff=ff()' --search 'iterated([ehc(hff, preferred=[hff]),lazy_greedy([hff], preferred=[hff])], continue_on_fail=true, continue_on_solve=false, max_time=1800)'");
 	else
-		command += downwardConf;
+		command += string(" ") + downwardConf;
 
 	// add the file input
 	command += string("  < ") + sasfile;
-- 
2.43.0


From 55f27864d8ffbd4c80ca5d74961b25ca3987e416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:19 +0000
Subject: [PATCH 19/97] fix: failed translations were written to file
 nevertheless

---
 src/translation/translationController.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/translation/translationController.cpp b/src/translation/translationController.cpp
index 543b6a0..9676cc7 100644
--- a/src/translation/translationController.cpp
+++ b/src/translation/translationController.cpp
@@ -218,7 +218,10 @@ void runTranslationPlanner(Model* htn, TranslationType transtype, bool forceTran
 	string planFileName; // will be returned by runFD
 	while (true){
 		// what to do
-		performOneTranslation(translation, transtype, parallel, pgbList);
+		if (!performOneTranslation(translation, transtype, parallel, pgbList)){
+			cout << endl << "- Translation failed, it is too large for this progression bound. Aborting." << endl;
+			exit(-1);
+		}
 		printSASToFile(translation, transtype, sasfile, realCosts);
 		if (onlyGenerate) break;
 
-- 
2.43.0


From e82b18d350586fa5dfaf66a05ad5d8ad6257d545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:22 +0000
Subject: [PATCH 20/97] fix: narrowing conversion in the isomorphism check is
 an error for clang

---
 src/VisitedList.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/VisitedList.cpp b/src/VisitedList.cpp
index 1a48990..4dc90f0 100644
--- a/src/VisitedList.cpp
+++ b/src/VisitedList.cpp
@@ -178,7 +178,7 @@ void colourSteps(planStep *head, map<planStep *, int> &colour, map<pair<int, vec
 
     auto colourOf = [&](int own, vector<int> neighbours) {
         sort(neighbours.begin(), neighbours.end());
-        return ids.insert({{own, neighbours}, ids.size()}).first->second;
+        return ids.insert({{own, neighbours}, (int) ids.size()}).first->second;
     };
     for (planStep *ps : postOrder) { // below
         vector<int> neighbours;
-- 
2.43.0


From f81eaac4872b7fe98810a25d62492e728e7818d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:41 +0000
Subject: [PATCH 21/97] fix: search statistics converted an infinite node rate
 to int

---
 src/search/PriorityQueueSearch.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/search/PriorityQueueSearch.h b/src/search/PriorityQueueSearch.h
index e58709a..785bb48 100644
--- a/src/search/PriorityQueueSearch.h
+++ b/src/search/PriorityQueueSearch.h
@@ -233,7 +233,7 @@ namespace progression {
                         cout << setw(4) << int((currentT - startT) / 1000) << "s "
                              << "visitime " << setw(7) << fixed << setprecision(2) << visitedList.time / 1000 << "s"
                              << " generated nodes " << setw(9) << allnodes
-                             << " nodes/sec " << setw(7) << int(double(allnodes) / (currentT - startT) * 1000)
+                             << " nodes/sec " << setw(7) << (long) (double(allnodes) / max(1L, (long) (currentT - startT)) * 1000)
                              << " cur h " << setw(4) << n->heuristicValue[0]
                              << " mod.depth " << setw(4) << n->modificationDepth
                              << " inserts " << setw(9) << visitedList.attemptedInsertions
@@ -273,7 +273,7 @@ namespace progression {
             cout << "- including " << (htn->numOneModActions) << " one modification actions" << endl;
             cout << "- including " << (htn->numOneModMethods) << " one modification methods" << endl;
             cout << "- and       " << (htn->numEffLessProg) << " progressions of effectless actions" << endl;
-            cout << "- Generated " << int(double(numSearchNodes) / (currentT - startT) * 1000) << " nodes per second"
+            cout << "- Generated " << (long) (double(numSearchNodes) / max(1L, (long) (currentT - startT)) * 1000) << " nodes per second"
                  << endl;
             cout << "- Final fringe contains " << fringe.size() << " nodes" << endl;
             if (this->foundSols > 1) {
-- 
2.43.0


From 914cac5481540b7a1342851a04695cc2a2a5a8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:12 +0000
Subject: [PATCH 22/97] fix: SAT task decomposition tree read the effects of
 abstract tasks

---
 src/sat/pdt.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/sat/pdt.cpp b/src/sat/pdt.cpp
index 225fe53..56fed49 100644
--- a/src/sat/pdt.cpp
+++ b/src/sat/pdt.cpp
@@ -291,11 +291,13 @@ void PDT::expandPDT(Model* htn, bool effectLessActionsInSeparateLeaf){
 					bool iameffectLess = htn->numAdds[p] == 0 && htn->numDels[p] == 0; 
 					bool childSelected = false;
 					for (size_t c = 0; c < sog->numberOfVertices; c++){
-						if (childrenTasks[c].size() != 0){
-							int itsFirst = childrenTasks[c].begin()->first;
-							bool itEffectless = htn->numAdds[itsFirst] == 0 && htn->numDels[itsFirst] == 0;
-							if (itEffectless != iameffectLess) continue;
+						// all primitives of a child must be of the same kind, abstract tasks do not matter
+						bool sameKind = true;
+						for (int itsPrimitive : children[c]->possiblePrimitives){
+							bool itEffectless = htn->numAdds[itsPrimitive] == 0 && htn->numDels[itsPrimitive] == 0;
+							if (itEffectless != iameffectLess) sameKind = false;
 						}
+						if (!sameKind) continue;
 						// 
 						selectedChild = c;
 						int subIndex = children[selectedChild]->possiblePrimitives.size();
-- 
2.43.0


From 29cdd04651c4487d86b72ef963bf3d16a3af582f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:19 +0000
Subject: [PATCH 23/97] fix: SAT planner gave up when no child could take over
 an action (effect-less actions in separate leafs)

---
 src/sat/pdt.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/sat/pdt.cpp b/src/sat/pdt.cpp
index 56fed49..a17bf05 100644
--- a/src/sat/pdt.cpp
+++ b/src/sat/pdt.cpp
@@ -153,6 +153,32 @@ void PDT::expandPDT(Model* htn, bool effectLessActionsInSeparateLeaf){
 	std::clock_t before_sog = std::clock();
 #endif
 	sog = optimiseSOG(applicableMethodsForSOG, htn, effectLessActionsInSeparateLeaf);
+
+	// primitives of this node need a child that does not contain actions of the other kind (with/without effects)
+	if (effectLessActionsInSeparateLeaf && sog->numberOfVertices > 0){
+		auto isEffectless = [&](int action){return htn->numAdds[action] == 0 && htn->numDels[action] == 0;};
+		vector<bool> hasEffectless(sog->numberOfVertices), hasEffect(sog->numberOfVertices);
+		for (size_t mID = 0; mID < applicableMethodsForSOG.size(); mID++){
+			int m = get<0>(applicableMethodsForSOG[mID]);
+			for (size_t sub = 0; sub < htn->numSubTasks[m]; sub++){
+				int task = htn->subTasks[m][sub];
+				if (task >= htn->numActions) continue;
+				if (isEffectless(task)) hasEffectless[sog->methodSubTasksToVertices[mID][sub]] = true;
+				else                    hasEffect[sog->methodSubTasksToVertices[mID][sub]] = true;
+			}
+		}
+		for (int p : possiblePrimitives){
+			vector<bool> & otherKind = isEffectless(p) ? hasEffect : hasEffectless;
+			if (find(otherKind.begin(), otherKind.end(), false) != otherKind.end()) continue;
+			// add a child which is not ordered w.r.t. any other child
+			sog->numberOfVertices++;
+			sog->labels.emplace_back();
+			sog->adj.emplace_back();
+			sog->bdj.emplace_back();
+			break; // all primitives of a node are of the same kind
+		}
+	}
+
 #ifndef NDEBUG
 	std::clock_t after_sog = std::clock();
 	cout << "Computed SOG, size: " << sog->numberOfVertices << endl;
-- 
2.43.0


From 95de63bd1e3eb4f8852c2c97e087996d3a4275e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:14 +0000
Subject: [PATCH 24/97] fix: symbolic search ignored the order of methods whose
 second subtask comes first

---
 src/symbolic_search/automaton.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbolic_search/automaton.cpp b/src/symbolic_search/automaton.cpp
index 8b80a59..9e82524 100644
--- a/src/symbolic_search/automaton.cpp
+++ b/src/symbolic_search/automaton.cpp
@@ -1196,7 +1196,7 @@ void build_automaton(Model * htn){
 		int first = htn->subTasks[method][0];
 		int second = htn->subTasks[method][1];
 		assert(htn->numOrderings[method] == 2);
-		if (htn->ordering[method][0] == 1 && htn->ordering[method][1])
+		if (htn->ordering[method][0] == 1 && htn->ordering[method][1] == 0)
 			std::swap(first,second);
 
 		tasks_per_method[method] = {first, second};
-- 
2.43.0


From 7daab36325d0edd3e32995b53be4e6fb8eab2e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:14 +0000
Subject: [PATCH 25/97] fix: symbolic search ignored all other methods of tasks
 with an empty method

---
 src/symbolic_search/automaton.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/symbolic_search/automaton.cpp b/src/symbolic_search/automaton.cpp
index 9e82524..e6ace0f 100644
--- a/src/symbolic_search/automaton.cpp
+++ b/src/symbolic_search/automaton.cpp
@@ -1467,7 +1467,9 @@ void build_automaton(Model * htn){
 							DEBUG(std::cout << "\t\t" << color(RED," ... state is not new") << std::endl);
 						}
 					}
-				} else {
+				}
+				
+				if (task >= htn->numActions){
 					// abstract edge, go over all applicable methods	
 					
 					for(int mIndex = 0; mIndex < htn->numMethodsForTask[task]; mIndex++){
-- 
2.43.0


From 5965dc02b4f9bef7478a89fe7d8c15a11d598e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:14 +0000
Subject: [PATCH 26/97] fix: symbolic search skipped cost layers with abstract
 tasks only and accessed layers that do not exist

---
 src/symbolic_search/automaton.cpp | 43 ++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/symbolic_search/automaton.cpp b/src/symbolic_search/automaton.cpp
index e6ace0f..0e94474 100644
--- a/src/symbolic_search/automaton.cpp
+++ b/src/symbolic_search/automaton.cpp
@@ -14,6 +14,7 @@
 #include <iostream>
 #include <iomanip>
 #include <queue>
+#include <set>
 #include <fstream>
 #include <unordered_set>
 
@@ -309,14 +310,20 @@ reconstructed_plan addToPlan(reconstructed_plan a, int task, int method, Model *
 
 
 
+// all layers (cost, depth) in the order in which they were handled
+std::set<std::pair<int,int>> handled_layers;
+
 pair<int,int> prev(int cost, int depth){
-	if (depth != 0)
-		return {cost, depth-1};
+	// costs may have been skipped, so look for the last layer that was actually handled
+	auto it = handled_layers.lower_bound({cost, depth});
+	if (it == handled_layers.begin())
+		return {-1, 0};
+	return *(--it);
+}
 
-	if (abst_q[cost-1].size() == 0)
-		return {cost-1, 0};
-	
-	return {cost-1, (--abst_q[cost-1].end())->first};
+void ensureEps(int vertex, int cost, int depth, symbolic::SymVariables & sym_vars){
+	if (!eps[vertex].count(cost) || !eps[vertex][cost].count(depth))
+		eps[vertex][cost][depth] = sym_vars.zeroBDD();
 }
 
 
@@ -883,8 +890,10 @@ reconstructed_plan extract2From(int curCost, int curDepth,
 
 		/// eps contains in v the state after the epsilon application
 		// and in v' the state in which the base task was pushed
+		ensureEps(toVertex, cost, depth, sym_vars);
 		BDD edgeBDD = eps[toVertex][cost][depth];
 		auto [pCost, pDepth] = prev(cost, depth);
+		ensureEps(toVertex, pCost, pDepth, sym_vars);
 		edgeBDD = edgeBDD * !eps[toVertex][pCost][pDepth]; // only the new epsilon states are interesting
 		// and of the new ones only the ones that will lead to the current stack head
 		edgeBDD *= stateStack.front(); // this has now v (current state) v' (stack push state) v'' (stack continuation)
@@ -1239,6 +1248,9 @@ void build_automaton(Model * htn){
 #ifndef NDEBUG
 		int insertCost = -1, insertDepth = -1;
 #endif
+		// the edge is already in the layer of the extra cost, so this layer has to be handled (i.e. be copied to the later ones)
+		if (extraCost) prim_q[currentCost + extraCost];
+
 		if (task >= htn->numActions || htn->actionCosts[task] == 0){
 			// abstract task or zero-cost action
 			if (!extraCost) {
@@ -1271,7 +1283,7 @@ void build_automaton(Model * htn){
 	int lastDepth;
 
 	int step = 0;
-	std::map<std::tuple<int,int>, std::vector<tracingInfo> > & current_queue = prim_q[0];
+	std::map<std::tuple<int,int>, std::vector<tracingInfo> > current_queue = prim_q[0];
 	// TODO separate trans and rel
 	while (true){ // TODO: detect unsolvability
 		for (auto & entry : current_queue){
@@ -1282,7 +1294,7 @@ void build_automaton(Model * htn){
 			for(tracingInfo & info : entry.second){
 				//int sourceCost = get<0>(info) + get<7>(info);
 				int sourceCost = get<0>(info);
-				if (get<7>(info) != get<5>(info)) sourceCost += get<7>(info);
+				if (get<7>(info) > 0) sourceCost += get<7>(info);
 				if (handledCosts.count(sourceCost)) continue;
 				handledCosts.insert(sourceCost);
 
@@ -1699,6 +1711,7 @@ void build_automaton(Model * htn){
 			}
 		}
 		
+		handled_layers.insert({currentCost, currentDepthInAbstract});
 		//graph_to_file(htn,"layer" + std::to_string(currentCost) + "_" + std::to_string(currentDepthInAbstract) +  ".dot");
 
 		// handled everything in this layer	
@@ -1726,13 +1739,19 @@ void build_automaton(Model * htn){
 		
 		if (next_abstract_layer == abst_q[currentCost].end()){
 			// transition to primitive layer
-			auto findIt = prim_q.find(currentCost);
-			findIt++;
-			if (findIt == prim_q.end() && ++abst_q.find(currentCost) == abst_q.end()){
+			// the next cost might only have tasks to be handled in its abstract layers
+			auto nextPrim = prim_q.upper_bound(currentCost);
+			auto nextAbst = abst_q.upper_bound(currentCost);
+			if (nextPrim == prim_q.end() && nextAbst == abst_q.end()){
 				std::cout << color(RED,"Problem is unsolvable") << std::endl;
 				exit(0);
 			}
-			currentCost = findIt->first;
+			if (nextPrim == prim_q.end())
+				currentCost = nextAbst->first;
+			else if (nextAbst == abst_q.end())
+				currentCost = nextPrim->first;
+			else
+				currentCost = std::min(nextPrim->first, nextAbst->first);
 			currentDepthInAbstract = 0; // the primitive layer
 			current_queue = prim_q[currentCost];
 			std::cout << color(CYAN,"==========================") << " Cost Layer " << currentCost << std::endl; 
-- 
2.43.0


From 4d1e4e8001190edb3440c94553de6e7d6cf8a3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:14 +0000
Subject: [PATCH 27/97] fix: symbolic search forgot completed tasks that did
 not lead to new edges immediately

---
 src/symbolic_search/automaton.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/symbolic_search/automaton.cpp b/src/symbolic_search/automaton.cpp
index 0e94474..bb9755d 100644
--- a/src/symbolic_search/automaton.cpp
+++ b/src/symbolic_search/automaton.cpp
@@ -944,8 +944,8 @@ reconstructed_plan extract2From(int curCost, int curDepth,
 		);
 
 
-		for (auto & [_preCost2, _preDepth2, lastTask, _toAgain, method2, remainingTask, remainingMethod, _] : eps_inserted[toVertex][cost][depth]){
-			DEBUG(pc(mc); std::cout << color(YELLOW,"Vertex was reachable with Epsilon when ") << " next on stack: t=" << remainingTask << " m=" << remainingMethod << " previous task: " << lastTask << " method: " << method2 << " " << endl);
+		for (auto & [_preCost2, _preDepth2, lastTask, _toAgain, method2, _task2, _to2, _] : eps_inserted[toVertex][cost][depth]){
+			DEBUG(pc(mc); std::cout << color(YELLOW,"Vertex was reachable with Epsilon when ") << " previous task: " << lastTask << " method: " << method2 << " " << endl);
 		
 
 			//////////////////////////////////////////////// Reconstruct a plan for the epsilon transition
@@ -954,10 +954,12 @@ reconstructed_plan extract2From(int curCost, int curDepth,
 			std::deque<int> epsilonMethodStack;
 			std::deque<BDD> epsilonStateStack;
 
-			epsilonTaskStack.push_back(remainingTask);
-			epsilonMethodStack.push_back(remainingMethod);
-			ensureBDD(remainingTask, remainingMethod, pCost, pDepth, sym_vars);
-			epsilonStateStack.push_back(edges[0][remainingTask][remainingMethod][cost][depth] * !edges[0][remainingTask][remainingMethod][pCost][pDepth]);
+			// only the states after the epsilon that fit to our stack, in v is the state and in v'' the push state
+			epsilonTaskStack.push_back(firstTask);
+			epsilonMethodStack.push_back(toVertex);
+			epsilonStateStack.push_back(edgeBDD.
+					AndAbstract(sym_vars.oneBDD(), sym_vars.existsVarsAux).
+					SwapVariables(sym_vars.swapVarsEff, sym_vars.swapVarsAux));
 		
 			// regress through the last operation that we performed
 			predecessorsIsPossible = generatePredecessor(lastTask,toVertex,
@@ -1366,6 +1368,10 @@ void build_automaton(Model * htn){
 							eps[to][currentCost][currentDepthInAbstract] = disjunct;
 							DEBUG(std::cout << "\t\t\t\t\t\t" << color(MAGENTA,"Adding to eps of ") << vertex_to_method[to] << std::endl);
 							
+							// this epsilon might be used later on, even if none of the current outgoing edges is new
+							tracingInfo tracingInf = {currentCost, currentDepthInAbstract, task, to, htn->emptyMethod[task], -1, -1, -1};
+							eps_inserted[to][currentCost][currentDepthInAbstract].push_back(tracingInf);
+							
 	
 							for (auto & [task2,tos] : edges[to]){
 								for (auto & [to2,bdds] : tos){
@@ -1449,11 +1455,6 @@ void build_automaton(Model * htn){
 											std::cout << task2 << " " << vertex_to_method[to2] << std::endl);
 									addQ(task2, to2, 0, task, to, htn->emptyMethod[task], -1, -1, false); // no method as primitive
 							
-									
-									tracingInfo tracingInf = {currentCost, currentDepthInAbstract, task, to, htn->emptyMethod[task], task2, to2, -1};
-									eps_inserted[to][currentCost][currentDepthInAbstract].push_back(tracingInf);
-								
-									
 									//if (step == 141){
 									//	exit(0);
 									//}	
-- 
2.43.0


From 85f25db806233a98ff9b5a512c55ace728566d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:14 +0000
Subject: [PATCH 28/97] fix: symbolic search did not continue with edges
 inserted after the finished task

---
 src/symbolic_search/automaton.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/symbolic_search/automaton.cpp b/src/symbolic_search/automaton.cpp
index bb9755d..6fafcf2 100644
--- a/src/symbolic_search/automaton.cpp
+++ b/src/symbolic_search/automaton.cpp
@@ -1375,10 +1375,11 @@ void build_automaton(Model * htn){
 	
 							for (auto & [task2,tos] : edges[to]){
 								for (auto & [to2,bdds] : tos){
-									if (!bdds.count(lastCost) || !bdds[lastCost].count(lastDepth)) continue;
+									// take all edges known so far, those that were inserted after the current one carry extra cost
+									if (!bdds.count(currentCost) || !bdds[currentCost].count(currentDepthInAbstract)) continue;
 									DEBUG(std::cout << "\tContinuing edge: " << task2 << " " << vertex_to_method[to2] << "\t" << htn->taskNames[task2] << std::endl);
 									
-									BDD bdd = bdds[lastCost][lastDepth];
+									BDD bdd = bdds[currentCost][currentDepthInAbstract];
 									BDD addStateWithIntermediate = nextState * bdd;
 									BDD originalAddStateWithIntermediate = addStateWithIntermediate;
 									// we only add something if it is not already at the edge ...
-- 
2.43.0


From 65169e3b4f7fd59b555c50063561c071503794b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:29 +0000
Subject: [PATCH 29/97] fix: plan extraction of the symbolic search looked for
 edges with extra cost in the wrong layer

---
 src/symbolic_search/automaton.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/symbolic_search/automaton.cpp b/src/symbolic_search/automaton.cpp
index 6fafcf2..a37187a 100644
--- a/src/symbolic_search/automaton.cpp
+++ b/src/symbolic_search/automaton.cpp
@@ -497,7 +497,8 @@ reconstructed_plan extract2From(int curCost, int curDepth,
 		if (cost != -1 && getHere >= 0)
 			tracesEpsilon.push_back(preItem);
 		else
-			groupedTracesOrdinary[std::make_pair(preCost + extraCost, preDepth)].push_back(preItem);
+			// edges with extra cost were inserted into the first layer of their cost
+			groupedTracesOrdinary[std::make_pair(preCost + extraCost, (extraCost > 0) ? 0 : preDepth)].push_back(preItem);
 		
 		
 		DEBUG(pc(mc); std::cout << "\t\tEdge c=" << preCost << " d=" << preDepth << " t=" << preTask << " m=" << (preTo != -1?vertex_to_method[preTo]:-1) << " ec=" << cost << " ed=" << getHere << " epC=" << extraCost << std::endl;);
@@ -579,7 +580,7 @@ reconstructed_plan extract2From(int curCost, int curDepth,
 #ifndef NDEBUG
 		int roundCounter = 0;
 #endif
-		for (auto & [_1, _2, preTask, preTo, appliedMethod, cost, depth, extraCost] : tracings){
+		for (auto & [_1, insertDepth, preTask, preTo, appliedMethod, cost, depth, extraCost] : tracings){
 			DEBUG(roundCounter++);
 			DEBUG(pc(mc); std::cout << color(YELLOW, "I could have been inserted by ") << " c=" << preCost - extraCost << " d=" << preDepth << 
 					" t=" << preTask << " m=" << (preTo != -1 ? vertex_to_method[preTo] : -1) << " cost=" << cost << " depth=" << depth << " extraCost=" << extraCost << std::endl);
@@ -621,7 +622,7 @@ reconstructed_plan extract2From(int curCost, int curDepth,
 				}
 
 				
-				auto [p2Cost, p2Depth] = prev(preCost - extraCost, preDepth);
+				auto [p2Cost, p2Depth] = prev(preCost - extraCost, insertDepth);
 
 				// ensure that this stack is actually present in the previous time step
 				stateStackPredecessor = checkStack(
@@ -641,7 +642,7 @@ reconstructed_plan extract2From(int curCost, int curDepth,
 				DEBUG(
 						pc(mc); std::cout << color(GREEN,"POINT OF NO RETURN") << std::endl;
 						pc(mc); std::cout << "Splitting at time" << std::endl;
-						pc(mc); std::cout << "c=" << preCost - extraCost<< " d=" << preDepth << std::endl;
+						pc(mc); std::cout << "c=" << preCost - extraCost<< " d=" << insertDepth << std::endl;
 						printStack(mc,taskStackPredecessor,methodStackPredecessor,1);
 						pc(mc); std::cout << "Number of extra edge cost sources: " << edgesExtraCostSource[preTo][tasks_per_method[appliedMethod].second][toStackHead][cost].size() << std::endl;
 						std::cout << "#####################################################################################" << std::endl;
@@ -681,7 +682,7 @@ reconstructed_plan extract2From(int curCost, int curDepth,
 					// now we are extracting until we have found the first task of the method on the edge
 					int firstTask = tasks_per_method[appliedMethod].first;
 					
-					reconstructed_plan a = extract2From(preCost - extraCost, preDepth, firstTask, sourceCost, newSourceState, 
+					reconstructed_plan a = extract2From(preCost - extraCost, insertDepth, firstTask, sourceCost, newSourceState, 
 							taskStackFirstPart, methodStackFirstPart, stateStackFirstPart, htn, sym_vars );
 
 					if (!a.success){
-- 
2.43.0


From 8ceb964a0de4b040f76e99691e93f5853cf359e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:10 +0000
Subject: [PATCH 30/97] fix: symbolic search considered only the first result
 of tasks it has already progressed through

---
 src/symbolic_search/automaton.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/symbolic_search/automaton.cpp b/src/symbolic_search/automaton.cpp
index a37187a..5e0f0a8 100644
--- a/src/symbolic_search/automaton.cpp
+++ b/src/symbolic_search/automaton.cpp
@@ -1584,6 +1584,10 @@ void build_automaton(Model * htn){
 		
 												// state after eps in v and stack push state in v'
 												BDD epsCurrent = eps[methods_with_two_tasks_vertex[method]][cost][depth];
+												// only those that are new, the others have been handled with an earlier epsilon
+												auto [prevCost, prevDepth] = prev(cost, depth);
+												ensureEps(methods_with_two_tasks_vertex[method], prevCost, prevDepth, sym_vars);
+												epsCurrent *= !eps[methods_with_two_tasks_vertex[method]][prevCost][prevDepth];
 			
 												// determine the state intersection, i.e. whether we actually have a possible epsilon shortcut at this state
 												BDD epsilonIntersect = epsCurrent * sIntersect;
@@ -1626,15 +1630,8 @@ void build_automaton(Model * htn){
 													DEBUG(std::cout << "\t\t\t\tEpsilon transition is not new: " << tasks_per_method[method].second << " " << vertex_to_method[to] << " cost " << actualCost << std::endl);
 													addQ(tasks_per_method[method].second, to, actualCost, task, to, method, cost, depth, true); 
 												}
-												////////////////////////////////////////////////////////////////	
-	
-												// remove the part of the state that we handled from consideration
-												sIntersect = sIntersect * !(epsilonIntersect.AndAbstract(sym_vars.oneBDD(), sym_vars.existsVarsPre));
-												if (sIntersect.IsZero()) break;
-											}
-											if (sIntersect.IsZero()){
-												DEBUG(std::cout << "\t\t\t\t" << color(RED,"no intersection remaining.") << std::endl);
-												break;
+												////////////////////////////////////////////////////////////////
+												// there might be further epsilons with other resulting states
 											}
 										}
 
-- 
2.43.0


From 5d386e9db24d5553750be1fe5791f1fcd10a6dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:02 +0000
Subject: [PATCH 31/97] fix: plan extraction of the symbolic search gave up
 when the first start state tried did not fit to the rest of the plan

---
 src/symbolic_search/automaton.cpp | 268 ++++++++++++++++--------------
 1 file changed, 141 insertions(+), 127 deletions(-)

diff --git a/src/symbolic_search/automaton.cpp b/src/symbolic_search/automaton.cpp
index 5e0f0a8..6f64b7e 100644
--- a/src/symbolic_search/automaton.cpp
+++ b/src/symbolic_search/automaton.cpp
@@ -682,91 +682,99 @@ reconstructed_plan extract2From(int curCost, int curDepth,
 					// now we are extracting until we have found the first task of the method on the edge
 					int firstTask = tasks_per_method[appliedMethod].first;
 					
-					reconstructed_plan a = extract2From(preCost - extraCost, insertDepth, firstTask, sourceCost, newSourceState, 
-							taskStackFirstPart, methodStackFirstPart, stateStackFirstPart, htn, sym_vars );
-
-					if (!a.success){
-						DEBUG(pc(mc); std::cout << "Extraction of the first part failed. This cannot happen." << std::endl;);
-						//exit(0);
-						//return get_fail();
-						continue;
-					}
+					// if the rest of the plan does not fit to the start state of the first part, try the other possible start states
+					for (bool firstPartExists = true; firstPartExists;){
+						reconstructed_plan a = extract2From(preCost - extraCost, insertDepth, firstTask, sourceCost, newSourceState, 
+								taskStackFirstPart, methodStackFirstPart, stateStackFirstPart, htn, sym_vars );
+
+						if (!a.success){
+							DEBUG(pc(mc); std::cout << "Extraction of the first part failed. This cannot happen." << std::endl;);
+							//exit(0);
+							//return get_fail();
+							firstPartExists = false;
+							continue;
+						}
+						newSourceState *= !a.endState;
 					
-					int prefixExpectedCost = preCost - extraCost - sourceCost - htn->actionCosts[preTask];
+						int prefixExpectedCost = preCost - extraCost - sourceCost - htn->actionCosts[preTask];
 
-					if (a.primitiveCost(htn) != prefixExpectedCost){
-						DEBUG(pc(mc));
-						std::cout << "Cost I was expecting " << prefixExpectedCost << " (=" << preCost - extraCost << "-" << sourceCost << ") but got " << a.primitiveCost(htn) << std::endl;
-						exit(0);
-					}
+						if (a.primitiveCost(htn) != prefixExpectedCost){
+							DEBUG(pc(mc));
+							std::cout << "Cost I was expecting " << prefixExpectedCost << " (=" << preCost - extraCost << "-" << sourceCost << ") but got " << a.primitiveCost(htn) << std::endl;
+							exit(0);
+						}
 
-					// after the additional cost path has been explored, the head of the stack is now the head of the cost path when it finished
-					stateStackPredecessor[0] = a.endState;
-					taskStackPredecessor[0] = firstTask; 
+						// after the additional cost path has been explored, the head of the stack is now the head of the cost path when it finished
+						std::deque<int> taskStackSecondPart = taskStackPredecessor;
+						std::deque<int> methodStackSecondPart = methodStackPredecessor;
+						std::deque<BDD> stateStackSecondPart = stateStackPredecessor;
+						stateStackSecondPart[0] = a.endState;
+						taskStackSecondPart[0] = firstTask; 
 
-					// ensure that this stack is actually present in the previous time step
-					stateStackPredecessor = checkStack(
+						// ensure that this stack is actually present in the previous time step
+						stateStackSecondPart = checkStack(
 #ifndef NDEBUG
-						mc,
+							mc,
 #endif
-						continueCost,continueDepth,taskStackPredecessor,methodStackPredecessor,stateStackPredecessor,htn,sym_vars);
+							continueCost,continueDepth,taskStackSecondPart,methodStackSecondPart,stateStackSecondPart,htn,sym_vars);
 		
-					if (stateStackPredecessor.front().IsZero()){
-						DEBUG(pc(mc); std::cout << "\t\t" << color(RED,"Second source stack does not exist") << std::endl;);
-						continue;
-					}
-					DEBUG(pc(mc); std::cout << "\t\t" << color(GREEN,"Second part of the stack exists") << std::endl;);
-
-					// apply the method there backwards
-					predecessorsIsPossible = generatePredecessor(abstractTask,methodStackPredecessor[1],
-							taskStackPredecessor,methodStackPredecessor,stateStackPredecessor,
-							appliedMethod,htn,sym_vars);
-					if (!predecessorsIsPossible) {
-						DEBUG(pc(mc); std::cout << "\t" << color(RED,"Predecessor cannot account for the new state.") << std::endl;);
-						continue;
-					}
+						if (stateStackSecondPart.front().IsZero()){
+							DEBUG(pc(mc); std::cout << "\t\t" << color(RED,"Second source stack does not exist") << std::endl;);
+							continue;
+						}
+						DEBUG(pc(mc); std::cout << "\t\t" << color(GREEN,"Second part of the stack exists") << std::endl;);
+
+						// apply the method there backwards
+						predecessorsIsPossible = generatePredecessor(abstractTask,methodStackSecondPart[1],
+								taskStackSecondPart,methodStackSecondPart,stateStackSecondPart,
+								appliedMethod,htn,sym_vars);
+						if (!predecessorsIsPossible) {
+							DEBUG(pc(mc); std::cout << "\t" << color(RED,"Predecessor cannot account for the new state.") << std::endl;);
+							continue;
+						}
 
-					DEBUG(pc(mc); std::cout << "\t\t" << color(MAGENTA,"Second part continuation ") << " cc=" << continueCost << " cd=" << continueDepth << std::endl);
-					reconstructed_plan b = extract2From(continueCost, continueDepth, targetTask, targetCost, targetState,
-							taskStackPredecessor, methodStackPredecessor, stateStackPredecessor, htn, sym_vars);
+						DEBUG(pc(mc); std::cout << "\t\t" << color(MAGENTA,"Second part continuation ") << " cc=" << continueCost << " cd=" << continueDepth << std::endl);
+						reconstructed_plan b = extract2From(continueCost, continueDepth, targetTask, targetCost, targetState,
+								taskStackSecondPart, methodStackSecondPart, stateStackSecondPart, htn, sym_vars);
 					
-					if (!b.success){
-						DEBUG(pc(mc); std::cout << "Extraction of the second part failed. This cannot happen." << std::endl;);
-						//exit(0);
-						//return get_fail();	
-						continue;
-					}
-					DEBUG(pc(mc); std::cout << color(GREEN,"Extraction of the second part successful.") << std::endl;);
+						if (!b.success){
+							DEBUG(pc(mc); std::cout << "Extraction of the second part failed. This cannot happen." << std::endl;);
+							//exit(0);
+							//return get_fail();	
+							continue;
+						}
+						DEBUG(pc(mc); std::cout << color(GREEN,"Extraction of the second part successful.") << std::endl;);
 					
-					a = addToPlan(a,preTask, appliedMethod, htn);
+						a = addToPlan(a,preTask, appliedMethod, htn);
 					
-					//a.printPlan(htn);
-					//b.printPlan(htn);
+						//a.printPlan(htn);
+						//b.printPlan(htn);
 					
-					for (auto x : a.primitive_plan)
-						b.primitive_plan.push_back(x);
-					a.primitive_plan = b.primitive_plan;
+						for (auto x : a.primitive_plan)
+							b.primitive_plan.push_back(x);
+						a.primitive_plan = b.primitive_plan;
 
-					for (auto x : b.abstract_plan)
-						a.abstract_plan.push_back(x);
+						for (auto x : b.abstract_plan)
+							a.abstract_plan.push_back(x);
 					
-					// the one decomposition we do here
+						// the one decomposition we do here
 		
-					assert(a.currentStack.size() == 0);
-					assert(b.currentStack.size() >= 1);
-					//int aRoot = a.root;
+						assert(a.currentStack.size() == 0);
+						assert(b.currentStack.size() >= 1);
+						//int aRoot = a.root;
 					
-					int sub2 = global_id_counter++;
-					int taskToDecompose = b.currentStack.front();
-					a.abstract_plan.push_back({taskToDecompose, htn->decomposedTask[appliedMethod], appliedMethod, a.root, sub2});
+						int sub2 = global_id_counter++;
+						int taskToDecompose = b.currentStack.front();
+						a.abstract_plan.push_back({taskToDecompose, htn->decomposedTask[appliedMethod], appliedMethod, a.root, sub2});
 		
-					a.currentStack = b.currentStack;
-					a.currentStack.pop_front();
-					a.currentStack.push_front(sub2);
+						a.currentStack = b.currentStack;
+						a.currentStack.pop_front();
+						a.currentStack.push_front(sub2);
 					
-					a.root = b.root;
-					//a.printPlan(htn);
-					return a;
+						a.root = b.root;
+						//a.printPlan(htn);
+						return a;
+					}
 				}
 
 				DEBUG(pc(mc); std::cout << "Backtracking beyond decision to take cost edge. This cannot be wrong as the causing stack existed." << std::endl;);
@@ -981,87 +989,93 @@ reconstructed_plan extract2From(int curCost, int curDepth,
 				AndAbstract(sym_vars.oneBDD(), sym_vars.existsVarsAux).
 				SwapVariables(sym_vars.swapVarsPre, sym_vars.swapVarsEff) * biimp;
 			
-			reconstructed_plan a = extract2From(cost, depth, firstTask, cost - extraCost, nextTargetState, 
-					epsilonTaskStack, epsilonMethodStack, epsilonStateStack, htn, sym_vars);
+			// if the rest of the plan does not fit to the start state of the epsilon reduction, try the other possible start states
+			for (bool reductionExists = true; reductionExists;){
+				reconstructed_plan a = extract2From(cost, depth, firstTask, cost - extraCost, nextTargetState, 
+						epsilonTaskStack, epsilonMethodStack, epsilonStateStack, htn, sym_vars);
 		
-			if (!a.success){
-				DEBUG(pc(mc); std::cout << "Extraction of the epsilon reduction failed. This cannot happen." << std::endl;);
-				//exit(0);
-				//return get_fail();	
-				continue;
-			}
+				if (!a.success){
+					DEBUG(pc(mc); std::cout << "Extraction of the epsilon reduction failed. This cannot happen." << std::endl;);
+					//exit(0);
+					//return get_fail();	
+					reductionExists = false;
+					continue;
+				}
+				nextTargetState *= !a.endState;
 			
-			/*if (a.primitiveCost(htn) != extraCost){
-				DEBUG(pc(mc)); std::cout << "Epsilon: I was expecting " << extraCost << " but got " << a.primitiveCost(htn) << std::endl;
-				exit(0);	
-			}*/
-			DEBUG(pc(mc); std::cout << color(GREEN,"Extraction of the epsilon reduction succeeded.") << std::endl;);
+				/*if (a.primitiveCost(htn) != extraCost){
+					DEBUG(pc(mc)); std::cout << "Epsilon: I was expecting " << extraCost << " but got " << a.primitiveCost(htn) << std::endl;
+					exit(0);	
+				}*/
+				DEBUG(pc(mc); std::cout << color(GREEN,"Extraction of the epsilon reduction succeeded.") << std::endl;);
 			
-			//DEBUG(pc(mc)); std::cout << "\t\t\tEpsilon: I got the correct cost " << a.primitiveCost(htn) << " going on " << preCost << " " << preDepth << " " << preTask << " " << sm.front() << std::endl;
+				//DEBUG(pc(mc)); std::cout << "\t\t\tEpsilon: I got the correct cost " << a.primitiveCost(htn) << " going on " << preCost << " " << preDepth << " " << preTask << " " << sm.front() << std::endl;
 		
-			// clean re-initialisation of stacks
-			stateStackPredecessor[0] *= a.endState.AndAbstract(sym_vars.oneBDD(), sym_vars.existsVarsAux);
+				// clean re-initialisation of stacks
+				std::deque<BDD> stateStackRemainder = stateStackPredecessor;
+				stateStackRemainder[0] *= a.endState.AndAbstract(sym_vars.oneBDD(), sym_vars.existsVarsAux);
 		
-			if (stateStackPredecessor[0].IsZero()) {
-				DEBUG(pc(mc); std::cout << "\t" << color(RED,"Predecessor cannot account for the new state.") << std::endl;);
-				continue;
-			}
+				if (stateStackRemainder[0].IsZero()) {
+					DEBUG(pc(mc); std::cout << "\t" << color(RED,"Predecessor cannot account for the new state.") << std::endl;);
+					continue;
+				}
 		
 			
-			DEBUG(
-				pc(mc); std::cout << "Extracting remaining plan from c=" << preCost << " d=" << preDepth << std::endl;
-				printStack(mc,taskStackPredecessor,methodStackPredecessor,1);
-			);
+				DEBUG(
+					pc(mc); std::cout << "Extracting remaining plan from c=" << preCost << " d=" << preDepth << std::endl;
+					printStack(mc,taskStackPredecessor,methodStackPredecessor,1);
+				);
 
 
 
 
-			reconstructed_plan b = extract2From(preCost, preDepth, targetTask, targetCost, targetState,
-					taskStackPredecessor, methodStackPredecessor, stateStackPredecessor, 
-					htn, sym_vars);
+				reconstructed_plan b = extract2From(preCost, preDepth, targetTask, targetCost, targetState,
+						taskStackPredecessor, methodStackPredecessor, stateStackRemainder, 
+						htn, sym_vars);
 		
-			if (!b.success) {
-				DEBUG(pc(mc); std::cout << "Extraction of epsilon remainder failed. This cannot happen." << std::endl;);
-				//exit(0);
-				//return get_fail();	
-				continue;
-			}
+				if (!b.success) {
+					DEBUG(pc(mc); std::cout << "Extraction of epsilon remainder failed. This cannot happen." << std::endl;);
+					//exit(0);
+					//return get_fail();	
+					continue;
+				}
 			
 			
-			a = addToPlan(a, lastTask, method2, htn);
-			b = addToPlan(b, preTask, appliedMethod, htn);
+				a = addToPlan(a, lastTask, method2, htn);
+				b = addToPlan(b, preTask, appliedMethod, htn);
 
-			//a.printPlan(htn);
-			//b.printPlan(htn);
+				//a.printPlan(htn);
+				//b.printPlan(htn);
 			
-			for (auto x : a.primitive_plan)
-				b.primitive_plan.push_back(x);
-			a.primitive_plan = b.primitive_plan;
-			for (auto x : b.abstract_plan)
-				a.abstract_plan.push_back(x);
+				for (auto x : a.primitive_plan)
+					b.primitive_plan.push_back(x);
+				a.primitive_plan = b.primitive_plan;
+				for (auto x : b.abstract_plan)
+					a.abstract_plan.push_back(x);
 			
-			// the one decomposition we do here
-
-			assert(a.currentStack.size() == 0);
-			assert(b.currentStack.size() >= 1);
-			int aRoot = a.root;
-			int bStackTop = b.currentStack.front();
-			b.currentStack.pop_front();
-			// replace 
-			for (auto & x : a.primitive_plan)
-				if (get<0>(x) == aRoot)
-					get<0>(x) = bStackTop;
-			for (auto & x : a.abstract_plan)
-				if (get<0>(x) == aRoot)
-					get<0>(x) = bStackTop;
+				// the one decomposition we do here
+
+				assert(a.currentStack.size() == 0);
+				assert(b.currentStack.size() >= 1);
+				int aRoot = a.root;
+				int bStackTop = b.currentStack.front();
+				b.currentStack.pop_front();
+				// replace 
+				for (auto & x : a.primitive_plan)
+					if (get<0>(x) == aRoot)
+						get<0>(x) = bStackTop;
+				for (auto & x : a.abstract_plan)
+					if (get<0>(x) == aRoot)
+						get<0>(x) = bStackTop;
 			
 			
-			a.currentStack = b.currentStack;
-			a.root = b.root;
+				a.currentStack = b.currentStack;
+				a.root = b.root;
 			
-			//a.printPlan(htn);
+				//a.printPlan(htn);
 
-			return a;
+				return a;
+			}
 		}
 
 		DEBUG(pc(mc); std::cout << color(RED,"Backtracking failed at this point ... ") << std::endl);
-- 
2.43.0


From 7dae38d80c40f51f59c4cca4ab11701f018d3068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:44 +0000
Subject: [PATCH 32/97] fix: task networks that branch or join were classified
 as parallel sequences

---
 src/Model.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Model.cpp b/src/Model.cpp
index a224f69..809b2db 100644
--- a/src/Model.cpp
+++ b/src/Model.cpp
@@ -3066,11 +3066,11 @@ newlyReachedMLMs = new noDelIntSet();
 
 			if (notOneSuccessor > 1 || notOnePredecessor > 1) {
 				isTotallyOrdered = false;
-				if (notZeroOrOneSuccessor || decomposedTask[i] != initialTask) {
+				if (notZeroOrOneSuccessor || decomposedTask[i] != initialTask)
 					isUniquePaths = false;
-					if (notZeroOrOnePredecessor || decomposedTask[i] != initialTask)
-						isParallelSequences = false;
-				}
+				// sequences neither branch nor join
+				if (notZeroOrOneSuccessor || notZeroOrOnePredecessor || decomposedTask[i] != initialTask)
+					isParallelSequences = false;
 			}
 		}
 
-- 
2.43.0


From 4223c80fe624a2c650db946da5b7ba3a0c67bf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:20 +0000
Subject: [PATCH 33/97] fix: interactive mode waited for another choice after a
 number that is too large

---
 src/interactivePlanner.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/interactivePlanner.cpp b/src/interactivePlanner.cpp
index bc5a6c0..e3002a3 100644
--- a/src/interactivePlanner.cpp
+++ b/src/interactivePlanner.cpp
@@ -2,22 +2,22 @@
 
 #include <queue>
 #include <iostream>
+#include <stdexcept>
+#include <string>
 
 
 // asks until a valid choice is given, at the end of the input the program stops
 static int readChoice(int min, int max){
-	int choice;
-	while(true) {
-		if (cin >> choice) {
-			if (choice >= min && choice <= max) return choice;
-		} else {
-			if (cin.eof()) exit(0);
-			cin.clear();
-			string ignored;
-			cin >> ignored;
-		}
+	string token;
+	while(cin >> token) {
+		try {
+			size_t used;
+			int choice = stoi(token, &used);
+			if (used == token.size() && choice >= min && choice <= max) return choice;
+		} catch (const logic_error &) {} // not a number, or too large for one
 		cout << "Invalid choice." << endl;
 	}
+	exit(0);
 }
 
 void interactivePlanner(Model* htn, searchNode* tnI){
-- 
2.43.0


From 3adfd956a56544070aba1a0a3b5d366b38b1759f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:58 +0000
Subject: [PATCH 34/97] fix: HDDL export dropped orderings via no-ops and
 ordered no-ops that are not written

---
 src/Model.cpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/Model.cpp b/src/Model.cpp
index 809b2db..ca46371 100644
--- a/src/Model.cpp
+++ b/src/Model.cpp
@@ -2887,22 +2887,29 @@ newlyReachedMLMs = new noDelIntSet();
 
 				if (this->numOrderings[i]) {
 
-					int j = 0;
-					bool firstOrdering = true;
-					while (j < this->numOrderings[i]) {
-						if (this->ordering[i][j] == possibleMethodPrecondition || noopIDs.count(this->ordering[i][j]) || noopIDs.count(this->ordering[i][j] + 1) ) {
-							j+=2;
-							continue;
+					// no-ops are not written, what is ordered via them stays ordered
+					set<pair<int,int>> orderings;
+					for (int j = 0; j < this->numOrderings[i]; j += 2)
+						if (this->ordering[i][j] != possibleMethodPrecondition)
+							orderings.insert({this->ordering[i][j], this->ordering[i][j + 1]});
+					for (int noop : noopIDs) {
+						set<pair<int,int>> remaining;
+						for (auto & before : orderings) {
+							if (before.first != noop && before.second != noop) remaining.insert(before);
+							if (before.second != noop) continue;
+							for (auto & after : orderings)
+								if (after.first == noop) remaining.insert({before.first, after.second});
 						}
+						orderings = remaining;
+					}
+
+					bool firstOrdering = true;
+					for (auto & o : orderings) {
 						if (firstOrdering) {
 							dfile << "     :ordering (and" << endl;
 							firstOrdering = false;
 						}
-						
-						
-						dfile << "        (task" << this->ordering[i][j] << " < task" << this->ordering[i][j + 1] << ")"
-							<< endl;
-						j += 2;
+						dfile << "        (task" << o.first << " < task" << o.second << ")" << endl;
 					}
 					if (!firstOrdering) dfile << "     )" << endl;
 				}
-- 
2.43.0


From f8dc766333fecad53b6232c323201a34b1c69b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:00 +0000
Subject: [PATCH 35/97] fix: HDDL export gave the same name to elements whose
 names differ in special characters only

---
 src/Model.cpp | 42 +++++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/Model.cpp b/src/Model.cpp
index ca46371..2a3f34a 100644
--- a/src/Model.cpp
+++ b/src/Model.cpp
@@ -2778,20 +2778,36 @@ newlyReachedMLMs = new noDelIntSet();
 		   */
 	}
 
+	// names that differ in special characters only must stay different
+	static vector<string> uniqueCleanNames(StringUtil & su, string * names, int num) {
+		vector<string> result;
+		set<string> used;
+		for (int i = 0; i < num; i++) {
+			string name = su.cleanStr(names[i]);
+			string unique = name;
+			for (int j = 1; !used.insert(unique).second; j++)
+				unique = name + "_" + to_string(j);
+			result.push_back(unique);
+		}
+		return result;
+	}
+
 	void Model::writeToPDDL(string dName, string pName) {
+		vector<string> factNames = uniqueCleanNames(su, this->factStrs, this->numStateBits);
+		vector<string> cleanTaskNames = uniqueCleanNames(su, this->taskNames, this->numTasks);
 		ofstream dfile;
 		dfile.open(dName);
 		dfile << "(define (domain rc)" << endl;
 		dfile << "  (:predicates ";
 		for (int i = 0; i < this->numStateBits; i++) {
-			dfile << "(" << su.cleanStr(this->factStrs[i]) << ")" << endl;
+			dfile << "(" << factNames[i] << ")" << endl;
 			if (i < this->numStateBits - 1)
 				dfile << "               ";
 		}
 		dfile << "  )" << endl << endl;
 
 		for (int i = numActions; i < numTasks; i++) {
-			dfile << "  (:task " << su.cleanStr(this->taskNames[i]);
+			dfile << "  (:task " << cleanTaskNames[i];
 			dfile << " :parameters ())" << endl;
 		}
 		dfile << endl;
@@ -2840,13 +2856,13 @@ newlyReachedMLMs = new noDelIntSet();
 
 			dfile << "  (:method " << su.cleanStr(this->methodNames[i]) << "_" << i << endl;
 			dfile << "     :parameters ()" << endl;
-			dfile << "     :task (" << su.cleanStr(this->taskNames[this->decomposedTask[i]]) << ")" << endl;
+			dfile << "     :task (" << cleanTaskNames[this->decomposedTask[i]] << ")" << endl;
 			if (possibleMethodPrecondition >= 0){
 				int preconditionTask = subTasks[i][possibleMethodPrecondition];
 				
 				dfile << "     :precondition (and " << endl;
 				for (int j = 0; j < this->numPrecs[preconditionTask]; j++) {
-					dfile << "         (" << su.cleanStr(this->factStrs[this->precLists[preconditionTask][j]]) << ")" << endl;
+					dfile << "         (" << factNames[this->precLists[preconditionTask][j]] << ")" << endl;
 				}
 				dfile << "     )" << endl;
 			}
@@ -2862,7 +2878,7 @@ newlyReachedMLMs = new noDelIntSet();
 					
 					if (subTasks[i][j] < this->numActions)
 						actionOccurs[subTasks[i][j]] = true;
-					dfile << "        (" << su.cleanStr(taskNames[subTasks[i][j]]) << ")" << endl;
+					dfile << "        (" << cleanTaskNames[subTasks[i][j]] << ")" << endl;
 				}
 				dfile << "     )" << endl;
 
@@ -2880,7 +2896,7 @@ newlyReachedMLMs = new noDelIntSet();
 					}
 					if (subTasks[i][j] < this->numActions)
 						actionOccurs[subTasks[i][j]] = true;
-					dfile << "        (task" << j << " (" << su.cleanStr(taskNames[subTasks[i][j]]) << "))" << endl;
+					dfile << "        (task" << j << " (" << cleanTaskNames[subTasks[i][j]] << "))" << endl;
 				}
 				dfile << "     )" << endl;
 
@@ -2921,22 +2937,22 @@ newlyReachedMLMs = new noDelIntSet();
 
 		for (int i = 0; i < this->numActions; i++) {
 			if (!actionOccurs[i]) continue; // don't output method precondition actions.
-			dfile << "  (:action " << su.cleanStr(this->taskNames[i]) << endl;
+			dfile << "  (:action " << cleanTaskNames[i] << endl;
 			dfile << "     :parameters ()" << endl;
 			if (this->numPrecs[i]) {
 				dfile << "     :precondition (and " << endl;
 				for (int j = 0; j < this->numPrecs[i]; j++) {
-					dfile << "         (" << su.cleanStr(this->factStrs[this->precLists[i][j]]) << ")" << endl;
+					dfile << "         (" << factNames[this->precLists[i][j]] << ")" << endl;
 				}
 				dfile << "     )" << endl;
 			}
 			if (this->numAdds[i] + this->numDels[i]) {
 				dfile << "     :effect (and " << endl;
 				for (int j = 0; j < this->numAdds[i]; j++) {
-					dfile << "         (" << su.cleanStr(this->factStrs[this->addLists[i][j]]) << ")" << endl;
+					dfile << "         (" << factNames[this->addLists[i][j]] << ")" << endl;
 				}
 				for (int j = 0; j < this->numDels[i]; j++) {
-					dfile << "         (not(" << su.cleanStr(this->factStrs[this->delLists[i][j]]) << "))" << endl;
+					dfile << "         (not(" << factNames[this->delLists[i][j]] << "))" << endl;
 				}
 				dfile << "     )" << endl;
 			}
@@ -2955,19 +2971,19 @@ newlyReachedMLMs = new noDelIntSet();
 		if (this->isHtnModel) {
 			pfile << "   (:htn :parameters ()" << endl;
 			pfile << "      :subtasks (and" << endl;
-			pfile << "         (" << su.cleanStr(taskNames[this->initialTask]) << ")" << endl;
+			pfile << "         (" << cleanTaskNames[this->initialTask] << ")" << endl;
 			pfile << "      )" << endl;
 			pfile << "   )" << endl;
 		}
 		pfile << "   (:init" << endl;
 		for (int i = 0; i < this->s0Size; i++) {
-			pfile << "      (" << su.cleanStr(this->factStrs[this->s0List[i]]) << ")" << endl;
+			pfile << "      (" << factNames[this->s0List[i]] << ")" << endl;
 		}
 		pfile << "   )" << endl;
 		if (this->gSize) {
 			pfile << "   (:goal (and" << endl;
 			for (int i = 0; i < this->gSize; i++) {
-				pfile << "      (" << su.cleanStr(this->factStrs[this->gList[i]]) << ")" << endl;
+				pfile << "      (" << factNames[this->gList[i]] << ")" << endl;
 			}
 			pfile << "   ))" << endl;
 		}
-- 
2.43.0


From b08b3657294883909040620466e0e6e20f36f880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:24 +0000
Subject: [PATCH 36/97] fix: compressed sequence set broke when a sequence
 ended at a block boundary within a longer one

---
 src/intDataStructures/CompressedSequenceSet.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/intDataStructures/CompressedSequenceSet.cpp b/src/intDataStructures/CompressedSequenceSet.cpp
index ed93d09..9bb08ce 100644
--- a/src/intDataStructures/CompressedSequenceSet.cpp
+++ b/src/intDataStructures/CompressedSequenceSet.cpp
@@ -89,6 +89,12 @@ compressed_sequence_trie::compressed_sequence_trie(const vector<uint64_t> & sequ
 void compressed_sequence_trie::split_me_at(int block, int bit){
 	DEBUG(cout << "Starting split of block " << block << " @ bit " << bit << endl);
 	
+	// splitting behind the last bit of a block is splitting in front of the next one
+	if (bit == 64) {
+		block++;
+		bit = 0;
+	}
+
 	compressed_sequence_trie * child = new compressed_sequence_trie();
 	// child gets all blocks from (inclusive) block to blocks
 	child->blocks = blocks - block; DEBUG(cout << "\tchild receives " << child->blocks << " blocks " << endl);
-- 
2.43.0


From 5003eeb1313e3f146c3c1de0579dfcb1f72b3f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:14 +0000
Subject: [PATCH 37/97] fix: sequence set left the split off node's bits
 uninitialised

---
 src/intDataStructures/SequenceSet.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/intDataStructures/SequenceSet.cpp b/src/intDataStructures/SequenceSet.cpp
index 5ace070..3555bc8 100644
--- a/src/intDataStructures/SequenceSet.cpp
+++ b/src/intDataStructures/SequenceSet.cpp
@@ -152,6 +152,7 @@ void sequence_trie::split_me_at(int bit){
 		value = value & bitmask_ignore_last(ignoreBitsLast);
 	} else {
 		// I might end up with no bits at all (edge cases ...)
+		value = 0;
 	}
 	
 	//print_tree(0);
-- 
2.43.0


From 9ccba9d32a8a032a4340a0d71427cb422a4bb3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:14 +0000
Subject: [PATCH 38/97] fix: noDelIntSet intersection iterated past the end of
 the larger set

---
 src/intDataStructures/noDelIntSet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/intDataStructures/noDelIntSet.cpp b/src/intDataStructures/noDelIntSet.cpp
index f4255a2..d55b264 100644
--- a/src/intDataStructures/noDelIntSet.cpp
+++ b/src/intDataStructures/noDelIntSet.cpp
@@ -94,7 +94,7 @@ noDelIntSet* noDelIntSet::setIntersection(noDelIntSet* second) {
 
 	for (int i = lessElements->getFirst(); i >= 0; i =
 			lessElements->getNext()) {
-		if ((moreElements->containerSize <= i) && (moreElements->get(i)))
+		if ((i < moreElements->containerSize) && (moreElements->get(i)))
 			that->insert(i);
 	}
 	return that;
@@ -117,7 +117,7 @@ void noDelIntSet::setIntersection(noDelIntSet* result, noDelIntSet* second) {
 
 	for (int i = lessElements->getFirst(); i >= 0; i =
 			lessElements->getNext()) {
-		if ((moreElements->containerSize <= i) && (moreElements->get(i)))
+		if ((i < moreElements->containerSize) && (moreElements->get(i)))
 			result->insert(i);
 	}
 }
-- 
2.43.0


From b8e17053b5aa8afdfc351df89b31f2947bad287f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:14 +0000
Subject: [PATCH 39/97] fix: a FlexIntStack of capacity zero never grew

---
 src/intDataStructures/FlexIntStack.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/intDataStructures/FlexIntStack.cpp b/src/intDataStructures/FlexIntStack.cpp
index bef1ebe..1fc9ff8 100644
--- a/src/intDataStructures/FlexIntStack.cpp
+++ b/src/intDataStructures/FlexIntStack.cpp
@@ -31,9 +31,10 @@ int FlexIntStack::getSize() {
 
 void FlexIntStack::push(int i) {
 	if (currentSize == containerSize) {
-		int* newContainer = new int[containerSize * 2];
+		int newSize = (containerSize > 0) ? containerSize * 2 : 1;
+		int* newContainer = new int[newSize];
 		memcpy(newContainer, intContainer, sizeof(int) * containerSize);
-		containerSize = containerSize * 2;
+		containerSize = newSize;
 		delete[] intContainer;
 		intContainer = newContainer;
 	}
-- 
2.43.0


From 5ab27d66cdb87f7f6feffeb50e1a3a668ee8af27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:14 +0000
Subject: [PATCH 40/97] fix: an IntPairHeap of capacity zero wrote outside of
 its array

---
 src/intDataStructures/IntPairHeap.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/intDataStructures/IntPairHeap.h b/src/intDataStructures/IntPairHeap.h
index 1f3fa92..2fee3af 100644
--- a/src/intDataStructures/IntPairHeap.h
+++ b/src/intDataStructures/IntPairHeap.h
@@ -25,6 +25,7 @@ namespace progression {
     public:
         IntPairHeap(int size) {
             this->nextIndex = 1;
+            if (size < 1) size = 1; // the element with index 0 is always needed
             this->arraySize = size;
             this->keys = new T[size];
             this->vals = new int[size];
-- 
2.43.0


From a91e5264c6bba36d0ba1ce60c29d5f467ed98b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:14 +0000
Subject: [PATCH 41/97] fix: getStrX read past the end of the line

---
 src/intDataStructures/StringUtil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/intDataStructures/StringUtil.cpp b/src/intDataStructures/StringUtil.cpp
index 15a4186..8a16950 100644
--- a/src/intDataStructures/StringUtil.cpp
+++ b/src/intDataStructures/StringUtil.cpp
@@ -58,7 +58,7 @@ string StringUtil::getStrX(string s, int nr) {
 		i++;
 	}
 	int start = i;
-	while(s[i] != ' ') {
+	while((i < s.length()) && (s[i] != ' ')) {
 		i++;
 	}
 	return s.substr(start, i - start);
-- 
2.43.0


From 1f7ac3a2a7cddfd82929913d64f0c6987f122f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:14 +0000
Subject: [PATCH 42/97] fix: delIterIntSet lost elements on insertion and on
 deletion while iterating

---
 src/intDataStructures/delIterIntSet.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/intDataStructures/delIterIntSet.cpp b/src/intDataStructures/delIterIntSet.cpp
index 06e0afa..d6a7788 100644
--- a/src/intDataStructures/delIterIntSet.cpp
+++ b/src/intDataStructures/delIterIntSet.cpp
@@ -45,8 +45,10 @@ void delIterIntSet::insert(int i) {
 			this->first = elem;
 			this->last = elem;
 		} else {
-			elem->next = this->last;
-			last->prev = elem;
+			elem->isLast = true;
+			elem->prev = this->last;
+			this->last->isLast = false;
+			this->last->next = elem;
 			this->last = elem;
 		}
 		currentSize++;
@@ -95,20 +97,24 @@ int delIterIntSet::delCurrentGetNext() {
 		llInt* elem = this->currentIterElem;
 		if (currentSize > 1) {
 			this->currentIterElem->next->isFirst = true;
+			this->currentIterElem->next->prev = nullptr;
 			this->first = this->currentIterElem->next;
 		} else {
 			this->first = nullptr;
 			this->last = nullptr;
 		}
+		this->currentIterElem = this->first;
 		delete elem;
 		currentSize--;
-		return -1;
+		return (this->currentIterElem != nullptr) ? this->currentIterElem->value : -1;
 	} else if (this->currentIterElem->isLast) {
 		boolContainer[this->currentIterElem->value] = false;
 		assert(currentSize > 1); // otherwise the last case would be true
 		llInt* elem = this->currentIterElem;
 		this->currentIterElem->prev->isLast = true;
+		this->currentIterElem->prev->next = nullptr;
 		this->last = this->currentIterElem->prev;
+		this->currentIterElem = nullptr;
 		delete elem;
 		currentSize--;
 		return -1;
-- 
2.43.0


From 57955b9d2a506cf8921d9b16bf4b3296204a7ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:20 +0000
Subject: [PATCH 43/97] fix: ADD apply continued with a stale order after an
 operator triggered reordering

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddAddApply.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddAddApply.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddAddApply.c
index d9de676..60a9921 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddAddApply.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddAddApply.c
@@ -1031,6 +1031,8 @@ cuddAddApplyRecur(
     statLine(dd);
     res = (*op)(dd,&f,&g);
     if (res != NULL) return(res);
+    /* The operator may have built nodes and thus triggered reordering. */
+    if (dd->reordered == 1) return(NULL);
 
     /* Check cache. */
     cacheOp = (DD_CTFP) op;
-- 
2.43.0


From 863bd93272e1d85efe25db241828778c6f0a47e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:20 +0000
Subject: [PATCH 44/97] fix: Cudd_addRoundOff cached results without the number
 of digits

---
 .../cudd-3.0.0/cudd/cuddAddNeg.c              | 26 ++++++++++++-------
 src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h |  2 +-
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddAddNeg.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddAddNeg.c
index 3f4c95d..fa77481 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddAddNeg.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddAddNeg.c
@@ -130,13 +130,19 @@ Cudd_addRoundOff(
   DdNode * f,
   int  N)
 {
-    DdNode *res;
-    double trunc = pow(10.0,(double)N);
+    DdNode *res, *trunc;
+
+    trunc = cuddUniqueConst(dd,(CUDD_VALUE_TYPE) pow(10.0,(double)N));
+    if (trunc == NULL) return(NULL);
+    cuddRef(trunc);
 
     do {
 	dd->reordered = 0;
 	res = cuddAddRoundOffRecur(dd,f,trunc);
     } while (dd->reordered == 1);
+    if (res != NULL) cuddRef(res);
+    Cudd_RecursiveDeref(dd,trunc);
+    if (res != NULL) cuddDeref(res);
     if (dd->errorCode == CUDD_TIMEOUT_EXPIRED && dd->timeoutHandler) {
         dd->timeoutHandler(dd, dd->tohArg);
     }
@@ -222,12 +228,12 @@ DdNode *
 cuddAddRoundOffRecur(
   DdManager * dd,
   DdNode * f,
-  double  trunc)
+  DdNode * truncNode)
 {
 
     DdNode *res, *fv, *fvn, *T, *E;
-    double m, n;
-    DD_CTFP1 cacheOp;
+    double m, n, trunc = cuddV(truncNode);
+    DD_CTFP cacheOp;
 
     statLine(dd);
     // if (cuddIsConstant(f)) {
@@ -245,8 +251,8 @@ cuddAddRoundOffRecur(
 	res = cuddUniqueConst(dd,n);
 	return(res);
     }
-    cacheOp = (DD_CTFP1) Cudd_addRoundOff;
-    res = cuddCacheLookup1(dd,cacheOp,f);
+    cacheOp = (DD_CTFP) cuddAddRoundOffRecur;
+    res = cuddCacheLookup2(dd,cacheOp,f,truncNode);
     if (res != NULL) {
 	return(res);
     }
@@ -254,12 +260,12 @@ cuddAddRoundOffRecur(
     /* Recursive Step */
     fv = cuddT(f);
     fvn = cuddE(f);
-    T = cuddAddRoundOffRecur(dd,fv,trunc);
+    T = cuddAddRoundOffRecur(dd,fv,truncNode);
     if (T == NULL) {
        return(NULL);
     }
     cuddRef(T);
-    E = cuddAddRoundOffRecur(dd,fvn,trunc);
+    E = cuddAddRoundOffRecur(dd,fvn,truncNode);
     if (E == NULL) {
 	Cudd_RecursiveDeref(dd,T);
 	return(NULL);
@@ -275,7 +281,7 @@ cuddAddRoundOffRecur(
     cuddDeref(E);
 
     /* Store result. */
-    cuddCacheInsert1(dd,cacheOp,f,res);
+    cuddCacheInsert2(dd,cacheOp,f,truncNode,res);
     return(res);
 
 } /* end of cuddAddRoundOffRecur */
diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h b/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h
index 1032430..7f264ad 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h
@@ -1076,7 +1076,7 @@ extern DdNode *cuddAddScalarInverseRecur(DdManager *dd, DdNode *f, DdNode *epsil
 extern DdNode *cuddAddIteRecur(DdManager *dd, DdNode *f, DdNode *g, DdNode *h);
 extern DdNode *cuddAddCmplRecur(DdManager *dd, DdNode *f);
 extern DdNode *cuddAddNegateRecur(DdManager *dd, DdNode *f);
-extern DdNode *cuddAddRoundOffRecur(DdManager *dd, DdNode *f, double trunc);
+extern DdNode *cuddAddRoundOffRecur(DdManager *dd, DdNode *f, DdNode *truncNode);
 extern DdNode *cuddUnderApprox(DdManager *dd, DdNode *f, int numVars, int threshold, int safe, double quality);
 extern DdNode *cuddRemapUnderApprox(DdManager *dd, DdNode *f, int numVars, int threshold, double quality);
 extern DdNode *cuddBiasedUnderApprox(DdManager *dd, DdNode *f, DdNode *b, int numVars, int threshold, double quality1, double quality0);
-- 
2.43.0


From f66daaa30bc02f823c81b8686a264b9cf657e291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:20 +0000
Subject: [PATCH 45/97] fix: Cudd_addResidue ignored two's complement numbers
 and failed under reordering

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddAddWalsh.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddAddWalsh.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddAddWalsh.c
index 789341d..6061b76 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddAddWalsh.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddAddWalsh.c
@@ -190,6 +190,10 @@ Cudd_addResidue(
     /* Main iteration. */
     residue = 1;	/* residue of 2**0 */
     for (k = 0; k < n; k++) {
+	/* Adjust residue for MSB, if this is a two's complement number. */
+	if (tc && (k == n - 1)) {
+	    residue = (m - residue) % m;
+	}
 	/* Choose current and previous arrays. */
 	thisOne = k & 1;
 	previous = thisOne ^ 1;
@@ -199,7 +203,7 @@ Cudd_addResidue(
 	} else {
 	    index = top+k;
 	}
-	var = cuddUniqueInter(dd,index,DD_ONE(dd),DD_ZERO(dd));
+	var = Cudd_addIthVar(dd,index);
 	if (var == NULL) {
 	    for (j = 0; j < m; j++) {
 		Cudd_RecursiveDeref(dd,array[previous][j]);
@@ -233,10 +237,6 @@ Cudd_addResidue(
 	Cudd_RecursiveDeref(dd,var);
 	/* Update residue of 2**k. */
 	residue = (2 * residue) % m;
-	/* Adjust residue for MSB, if this is a two's complement number. */
-	if (tc && (k == n - 1)) {
-	    residue = (m - residue) % m;
-	}
     }
 
     /* We are only interested in the 0-residue node of the top layer. */
-- 
2.43.0


From 5b829afe43b2116f6d7f7faa7a28cc1ec278b928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:20 +0000
Subject: [PATCH 46/97] fix: Cudd_addNonSimCompose overran its vectors after
 reordering

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c
index cdcb5a6..7a4d482 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c
@@ -656,7 +656,7 @@ Cudd_addNonSimCompose(
 {
     DdNode		*cube, *key, *var, *tmp, *piece;
     DdNode		*res;
-    int			i, lastsub;
+    int			i;
 
     /* The cache entry for this function is composed of three parts:
     ** f itself, the replacement relation, and the cube of the
@@ -717,16 +717,10 @@ Cudd_addNonSimCompose(
 
     /* Now try composition, until no reordering occurs. */
     do {
-	/* Find real substitution with largest index. */
-	for (lastsub = dd->size - 1; lastsub >= 0; lastsub--) {
-	    if (!ddIsIthAddVar(dd,vector[lastsub],(unsigned int)lastsub)) {
-		break;
-	    }
-	}
-
-	/* Recursively solve the problem. */
+	/* Recursively solve the problem.  Variables that are not substituted
+	** may be above substituted variables, whatever their index. */
 	dd->reordered = 0;
-	res = cuddAddNonSimComposeRecur(dd,f,vector,key,cube,lastsub+1);
+	res = cuddAddNonSimComposeRecur(dd,f,vector,key,cube,dd->size);
 	if (res != NULL) cuddRef(res);
 
     } while (dd->reordered == 1);
-- 
2.43.0


From 15429f4db6f5e259f50c70da7e1cf4ad2b39072f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:20 +0000
Subject: [PATCH 47/97] fix: cuddAddPermuteRecur lost references when it was
 interrupted by reordering

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c
index 7a4d482..6df9a27 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c
@@ -1068,7 +1068,11 @@ cuddAddPermuteRecur(
     */
     index = permut[node->index];
     var = cuddUniqueInter(manager,index,DD_ONE(manager),DD_ZERO(manager));
-    if (var == NULL) return(NULL);
+    if (var == NULL) {
+	Cudd_RecursiveDeref(manager, T);
+	Cudd_RecursiveDeref(manager, E);
+	return(NULL);
+    }
     cuddRef(var);
     res = cuddAddIteRecur(manager,var,T,E);
     if (res == NULL) {
-- 
2.43.0


From 23f780ff3e904bdeca04b8aed93487e1ffef645c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:20 +0000
Subject: [PATCH 48/97] fix: BuildConjuncts released two nodes twice when it
 was interrupted by reordering

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddDecomp.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddDecomp.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddDecomp.c
index b772142..8f380f6 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddDecomp.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddDecomp.c
@@ -1880,10 +1880,8 @@ BuildConjuncts(
 
     h2 = cuddBddIteRecur(dd, topv, factorsNv->h, factorsNnv->g);
     if (h2 == NULL) {
-	Cudd_RecursiveDeref(dd, factorsNv->g);
 	Cudd_RecursiveDeref(dd, factorsNv->h);
 	Cudd_RecursiveDeref(dd, factorsNnv->g);
-	Cudd_RecursiveDeref(dd, factorsNnv->h);
 	Cudd_RecursiveDeref(dd, g1);
 	Cudd_RecursiveDeref(dd, h1);
 	Cudd_RecursiveDeref(dd, g2);
-- 
2.43.0


From 2d0e1abf404fc65e9ceb33fa7e58055ad1981c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:20 +0000
Subject: [PATCH 49/97] fix: two-literal clauses assumed that the label has the
 least index

---
 .../cudd-3.0.0/cudd/cuddEssent.c              | 37 +++++++++++++------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddEssent.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddEssent.c
index 64d9000..ab4de53 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddEssent.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddEssent.c
@@ -766,6 +766,7 @@ computeClauses(
     TlClause *nclauses = NULL; /* list of new (non-inherited) clauses */
     TlClause *lnclause = NULL; /* pointer to last new clause */
     TlClause *newclause; /* temporary pointer to new clauses */
+    TlClause **place; /* place of the label in the lists */
 
     /* Initialize sets of one-literal clauses.  The one-literal clauses
     ** are stored redundantly.  These sets allow constant-time lookup, which
@@ -791,7 +792,9 @@ computeClauses(
     ** one child that are implied by a one-literal clause of the other
     ** child. */
     while (!sentinelp(Tcv[pt], Tcv[pt+1]) || !sentinelp(Ecv[pe], Ecv[pe+1])) {
-	if (equalp(Tcv[pt], bitVectorRead(Tcp, pt),
+	int tdone = sentinelp(Tcv[pt], Tcv[pt+1]);
+	int edone = sentinelp(Ecv[pe], Ecv[pe+1]);
+	if (!tdone && !edone && equalp(Tcv[pt], bitVectorRead(Tcp, pt),
 		   Tcv[pt+1], bitVectorRead(Tcp, pt+1),
 		   Ecv[pe], bitVectorRead(Ecp, pe),
 		   Ecv[pe+1], bitVectorRead(Ecp, pe+1))) {
@@ -805,10 +808,10 @@ computeClauses(
 	    newclause->next = iclauses;
 	    iclauses = newclause;
 	    pt += 2; pe += 2; cv++;
-	} else if (beforep(Tcv[pt], bitVectorRead(Tcp, pt),
+	} else if (edone || (!tdone && beforep(Tcv[pt], bitVectorRead(Tcp, pt),
 		   Tcv[pt+1], bitVectorRead(Tcp, pt+1),
 		   Ecv[pe], bitVectorRead(Ecp, pe),
-		   Ecv[pe+1], bitVectorRead(Ecp, pe+1))) {
+		   Ecv[pe+1], bitVectorRead(Ecp, pe+1)))) {
 	    if (oneliteralp(Tcv[pt+1])) {
 		/* Add this one-literal clause to the T set. */
 		newclause = ALLOC(TlClause,1);
@@ -871,24 +874,29 @@ computeClauses(
 	}
     }
 
-    /* Add one-literal clauses for the label variable to the front of
-    ** the two lists. */
+    /* Add one-literal clauses for the label variable to the two lists.
+    ** Its index is the least one only if the variables have not been
+    ** reordered. */
     newclause = ALLOC(TlClause,1);
     if (newclause == NULL) goto cleanup;
     newclause->v1 = label;
     newclause->v2 = CUDD_MAXINDEX;
     newclause->p1 = 0;
     newclause->p2 = 1;
-    newclause->next = tclauses;
-    tclauses = newclause;
+    place = &tclauses;
+    while (*place != NULL && (*place)->v1 < label) place = &(*place)->next;
+    newclause->next = *place;
+    *place = newclause;
     newclause = ALLOC(TlClause,1);
     if (newclause == NULL) goto cleanup;
     newclause->v1 = label;
     newclause->v2 = CUDD_MAXINDEX;
     newclause->p1 = 1;
     newclause->p2 = 1;
-    newclause->next = eclauses;
-    eclauses = newclause;
+    place = &eclauses;
+    while (*place != NULL && (*place)->v1 < label) place = &(*place)->next;
+    newclause->next = *place;
+    *place = newclause;
 
     /* Produce the non-inherited clauses.  We preserve the "reverse"
     ** order of the two input lists by appending to the end of the
@@ -1071,8 +1079,8 @@ computeClausesWithUniverse(
     if (Vcp == NULL) goto cleanup;
     res->vars = Vcv;
     res->phases = Vcp;
-    /* Copy old list into new. */
-    for (i = 0; !sentinelp(Ccv[i], Ccv[i+1]); i += 2) {
+    /* Copy the clauses that come before the one of the label. */
+    for (i = 0; !sentinelp(Ccv[i], Ccv[i+1]) && Ccv[i] > label; i += 2) {
 	Vcv[i] = Ccv[i];
 	Vcv[i+1] = Ccv[i+1];
 	bitVectorSet(Vcp, i, bitVectorRead(Ccp, i));
@@ -1085,6 +1093,13 @@ computeClausesWithUniverse(
     Vcv[i] = CUDD_MAXINDEX;
     bitVectorSet(Vcp, i, 1);
     i++;
+    /* Copy the other clauses. */
+    for (; !sentinelp(Ccv[i-2], Ccv[i-1]); i += 2) {
+	Vcv[i] = Ccv[i-2];
+	Vcv[i+1] = Ccv[i-1];
+	bitVectorSet(Vcp, i, bitVectorRead(Ccp, i-2));
+	bitVectorSet(Vcp, i+1, bitVectorRead(Ccp, i-1));
+    }
     /* Add sentinel. */
     Vcv[i] = 0;
     Vcv[i+1] = 0;
-- 
2.43.0


From 5f6f8437ce3762f96d78481932a7daf463129a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:20 +0000
Subject: [PATCH 50/97] fix: exact reordering overran its matrices

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddExact.c | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddExact.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddExact.c
index 0e07eb2..3bb0d96 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddExact.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddExact.c
@@ -120,7 +120,7 @@ cuddExact(
     int maxBinomial, oldSubsets, newSubsets;
     int subsetCost;
     int size;			/* number of variables to be reordered */
-    int unused, nvars, level, result;
+    int nvars, level, result;
     int upperBound, lowerBound, cost;
     int roots;
     char *mask = NULL;
@@ -163,17 +163,10 @@ cuddExact(
     /* Initialization. */
     nvars = table->size;
     size = upper - lower + 1;
-    /* Count unused variable among those to be reordered.  This is only
-    ** used to compute maxBinomial. */
-    unused = 0;
-    for (i = lower + 1; i < upper; i++) {
-	if (table->subtables[i].keys == 1 &&
-	    table->vars[table->invperm[i]]->ref == 1)
-	    unused++;
-    }
 
-    /* Find the maximum number of subsets we may have to store. */
-    maxBinomial = getMaxBinomial(size - unused);
+    /* Find the maximum number of subsets we may have to store.  Unused
+    ** variables count, because they are not moved out of the subsets. */
+    maxBinomial = getMaxBinomial(size);
     if (maxBinomial == -1) goto cuddExactOutOfMem;
 
     newOrder = getMatrix(maxBinomial, size);
@@ -238,7 +231,7 @@ cuddExact(
 	    /* For each top bottom variable. */
 	    for (j = level; j >= 0; j--) {
 		/* Skip unused variables. */
-		if (table->subtables[j+lower-1].keys == 1 &&
+		if (j > 0 && table->subtables[j+lower-1].keys == 1 &&
 		    table->vars[table->invperm[j+lower-1]]->ref == 1) continue;
 		/* Find cost under this order. */
 		subsetCost = cost + getLevelKeys(table, lower + level);
-- 
2.43.0


From 42386b1f9783a45610956845a9914921e3b29b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:20 +0000
Subject: [PATCH 51/97] fix: Cudd_bddCharToVect cleaned up with the new order
 after reordering

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c
index f999067..e448e4c 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c
@@ -495,12 +495,14 @@ Cudd_bddCharToVect(
 
     do {
 	dd->reordered = 0;
+	for (i = 0; i < dd->size; i++) vect[i] = NULL;
 	for (i = 0; i < dd->size; i++) {
 	    res = cuddBddCharToVect(dd,f,dd->vars[dd->invperm[i]]);
 	    if (res == NULL) {
-		/* Clean up the vector array in case reordering took place. */
-		for (j = 0; j < i; j++) {
-		    Cudd_IterDerefBdd(dd, vect[dd->invperm[j]]);
+		/* Clean up the vector array in case reordering took place.
+		** The order may not be the one used to fill it anymore. */
+		for (j = 0; j < dd->size; j++) {
+		    if (vect[j] != NULL) Cudd_IterDerefBdd(dd, vect[j]);
 		}
 		break;
 	    }
-- 
2.43.0


From a5c2b3799fca32458ef2e7cc059460ca5714df4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:20 +0000
Subject: [PATCH 52/97] fix: Cudd_addMatrixMultiply cached results without the
 summation variables

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h |  1 +
 .../cudd-3.0.0/cudd/cuddMatMult.c             | 29 ++++++++++++-------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h b/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h
index 7f264ad..cee253b 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h
@@ -157,6 +157,7 @@
 #define DD_BDD_MAX_EXP_TAG                      0x8a
 #define DD_VARS_SYMM_BEFORE_TAG                 0x8e
 #define DD_VARS_SYMM_BETWEEN_TAG                0xa2
+#define DD_ADD_MATRIX_MULTIPLY_TAG              0xa6
 
 /* Generator constants. */
 #define CUDD_GEN_CUBES 0
diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddMatMult.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddMatMult.c
index 2b1e547..e580e7b 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddMatMult.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddMatMult.c
@@ -77,7 +77,7 @@
 /* Static function prototypes                                                */
 /*---------------------------------------------------------------------------*/
 
-static DdNode * addMMRecur (DdManager *dd, DdNode *A, DdNode *B, int topP, int *vars);
+static DdNode * addMMRecur (DdManager *dd, DdNode *A, DdNode *B, int topP, int *vars, DdNode *cube);
 static DdNode * addTriangleRecur (DdManager *dd, DdNode *f, DdNode *g, int *vars, DdNode *cube);
 static DdNode * cuddAddOuterSumRecur (DdManager *dd, DdNode *M, DdNode *r, DdNode *c);
 
@@ -115,7 +115,7 @@ Cudd_addMatrixMultiply(
   int  nz)
 {
     int i, nvars, *vars;
-    DdNode *res; 
+    DdNode *res, *cube;
 
     /* Array vars says what variables are "summation" variables. */
     nvars = dd->size;
@@ -130,11 +130,20 @@ Cudd_addMatrixMultiply(
     for (i = 0; i < nz; i++) {
         vars[z[i]->index] = 1;
     }
+    cube = Cudd_addComputeCube(dd, z, NULL, nz);
+    if (cube == NULL) {
+	FREE(vars);
+	return(NULL);
+    }
+    cuddRef(cube);
 
     do {
 	dd->reordered = 0;
-	res = addMMRecur(dd,A,B,-1,vars);
+	res = addMMRecur(dd,A,B,-1,vars,cube);
     } while (dd->reordered == 1);
+    if (res != NULL) cuddRef(res);
+    Cudd_RecursiveDeref(dd,cube);
+    if (res != NULL) cuddDeref(res);
     FREE(vars);
     if (dd->errorCode == CUDD_TIMEOUT_EXPIRED && dd->timeoutHandler) {
         dd->timeoutHandler(dd, dd->tohArg);
@@ -318,7 +327,8 @@ addMMRecur(
   DdNode * A,
   DdNode * B,
   int  topP,
-  int * vars)
+  int * vars,
+  DdNode * cube)
 {
     DdNode *zero,
            *At,		/* positive cofactor of first operand */
@@ -335,7 +345,6 @@ addMMRecur(
     int index;		/* index of the top variable */
     CUDD_VALUE_TYPE value;
     int topA, topB, topV;
-    DD_CTFP cacheOp;
 
     statLine(dd);
     zero = DD_ZERO(dd);
@@ -376,8 +385,8 @@ addMMRecur(
     topA = cuddI(dd,A->index); topB = cuddI(dd,B->index);
     topV = ddMin(topA,topB);
 
-    cacheOp = (DD_CTFP) addMMRecur;
-    res = cuddCacheLookup2(dd,cacheOp,A,B);
+    /* The result depends on the summation variables, too. */
+    res = cuddCacheLookup(dd,DD_ADD_MATRIX_MULTIPLY_TAG,A,B,cube);
     if (res != NULL) {
 	/* If the result is 0, there is no need to normalize.
 	** Otherwise we count the number of z variables between
@@ -433,10 +442,10 @@ addMMRecur(
 	Bt = Be = B;
     }
 
-    t = addMMRecur(dd, At, Bt, (int)topV, vars);
+    t = addMMRecur(dd, At, Bt, (int)topV, vars, cube);
     if (t == NULL) return(NULL);
     cuddRef(t);
-    e = addMMRecur(dd, Ae, Be, (int)topV, vars);
+    e = addMMRecur(dd, Ae, Be, (int)topV, vars, cube);
     if (e == NULL) {
 	Cudd_RecursiveDeref(dd, t);
 	return(NULL);
@@ -473,7 +482,7 @@ addMMRecur(
 	Cudd_RecursiveDeref(dd, e);
     }
 
-    cuddCacheInsert2(dd,cacheOp,A,B,res);
+    cuddCacheInsert(dd,DD_ADD_MATRIX_MULTIPLY_TAG,A,B,cube,res);
 
     /* We have computed (and stored in the computed table) a minimal
     ** result; that is, a result that assumes no summation variables
-- 
2.43.0


From 2ac4ff4f242b28139039f4ce449d2f7b410fd73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:20 +0000
Subject: [PATCH 53/97] fix: outer sum went on with a stale order after
 reordering

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddMatMult.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddMatMult.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddMatMult.c
index e580e7b..a9c0129 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddMatMult.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddMatMult.c
@@ -652,7 +652,11 @@ cuddAddOuterSumRecur(
 		return(M);
 	    }
 	} else {
-	    P = Cudd_addApply(dd,Cudd_addMinimum,R,M);
+	    P = cuddAddApplyRecur(dd,Cudd_addMinimum,R,M);
+	    if (P == NULL) {
+		Cudd_RecursiveDeref(dd,R);
+		return(NULL);
+	    }
 	    cuddRef(P);
 	    Cudd_RecursiveDeref(dd,R);
 	    cuddDeref(P);
-- 
2.43.0


From aa862566a250a16861f5fa105051b2c468be1a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:20 +0000
Subject: [PATCH 54/97] fix: Cudd_ShuffleHeap left the group tree unsorted

---
 .../cudd-3.0.0/cudd/cuddReorder.c             | 48 +++++++++++++++++--
 1 file changed, 43 insertions(+), 5 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c
index 267cc54..d8b9db7 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c
@@ -84,6 +84,7 @@ static int ddReorderPostprocess (DdManager *table);
 static int ddShuffle (DdManager *table, int *permutation);
 static int ddSiftUp (DdManager *table, int x, int xLow);
 static void bddFixTree (DdManager *table, MtrNode *treenode);
+static void ddSortMtrChildren (MtrNode *treenode);
 static int ddUpdateMtrTree (DdManager *table, MtrNode *treenode, int *perm, int *invperm);
 static int ddCheckPermuation (DdManager *table, MtrNode *treenode, int *perm, int *invperm);
 
@@ -310,11 +311,7 @@ Cudd_ShuffleHeap(
     if (identity == 1) {
 	return(1);
     }
-    if (!ddReorderPreprocess(table)) return(0);
-    if (table->keys > table->peakLiveNodes) {
-	table->peakLiveNodes = table->keys;
-    }
-
+    /* Check the permutation before anything is prepared for it. */
     perm = ALLOC(int, table->size);
     for (i = 0; i < table->size; i++)
 	perm[permutation[i]] = i;
@@ -322,6 +319,15 @@ Cudd_ShuffleHeap(
 	FREE(perm);
 	return(0);
     }
+
+    if (!ddReorderPreprocess(table)) {
+	FREE(perm);
+	return(0);
+    }
+    if (table->keys > table->peakLiveNodes) {
+	table->peakLiveNodes = table->keys;
+    }
+
     if (!ddUpdateMtrTree(table,table->tree,perm,permutation)) {
 	FREE(perm);
 	return(0);
@@ -1964,6 +1970,37 @@ bddFixTree(
 } /* end of bddFixTree */
 
 
+/**
+  @brief Puts the children of a group into the order of their levels.
+
+  @sideeffect Changes the %BDD variable group tree.
+
+*/
+static void
+ddSortMtrChildren(
+  MtrNode * treenode)
+{
+    MtrNode *sorted = NULL;
+    MtrNode *node = treenode->child;
+
+    while (node != NULL) {
+	MtrNode *next = node->younger;
+	MtrNode *prev = NULL, *pos = sorted;
+	while (pos != NULL && pos->low < node->low) {
+	    prev = pos;
+	    pos = pos->younger;
+	}
+	node->elder = prev;
+	node->younger = pos;
+	if (pos != NULL) pos->elder = node;
+	if (prev != NULL) prev->younger = node; else sorted = node;
+	node = next;
+    }
+    treenode->child = sorted;
+
+} /* end of ddSortMtrChildren */
+
+
 /**
   @brief Updates the %BDD variable group tree before a shuffle.
 
@@ -2010,6 +2047,7 @@ ddUpdateMtrTree(
     if (treenode->child != NULL) {
 	if (!ddUpdateMtrTree(table, treenode->child, perm, invperm))
 	    return(0);
+	ddSortMtrChildren(treenode);
     }
     if (treenode->younger != NULL) {
 	if (!ddUpdateMtrTree(table, treenode->younger, perm, invperm))
-- 
2.43.0


From 022b244fbc222553d2cc49a2c18d67b4e0f3d784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:20 +0000
Subject: [PATCH 55/97] fix: random pivot reordering swapped variables outside
 of its range

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c  | 2 +-
 src/symbolic_search/cudd-3.0.0/cudd/cuddZddReord.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c
index d8b9db7..51bf52e 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c
@@ -608,7 +608,7 @@ cuddSwapping(
 		x = lower;
 	    } else{
 		do {
-		    x = (int) Cudd_Random(table) % modulo;
+		    x = (int) Cudd_Random(table) % modulo + lower;
 		} while (x == y);
 	    }
 	} else {
diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddReord.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddReord.c
index d443e5e..dff168e 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddReord.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddReord.c
@@ -732,7 +732,7 @@ cuddZddSwapping(
 		x = lower;
 	    } else {
 		do { /* x = random # from {0 .. pivot-2} */
-		    x = (int) Cudd_Random(table) % modulo;
+		    x = (int) Cudd_Random(table) % modulo + lower;
 		} while (x == y);
 		  /* Is this condition really needed, since x and y
 		     are in regions separated by pivot? */
-- 
2.43.0


From c5eaceea70169cfc5a6e5982b2b0f2d2cf9a4377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:20 +0000
Subject: [PATCH 56/97] fix: Cudd_EqualSupNorm cached results without the
 tolerance

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c
index bce24ee..2a0f3af 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c
@@ -794,10 +794,14 @@ Cudd_EqualSupNorm(
     }
 
     /* We only insert the result in the cache if the comparison is
-    ** successful. Therefore, if we hit we return 1. */
+    ** successful. The cached node is the tolerance of that comparison.
+    ** Therefore, if it is not above the given one, we return 1. */
     r = cuddCacheLookup2(dd,(DD_CTFP)Cudd_EqualSupNorm,f,g);
     if (r != NULL) {
-	return(1);
+	CUDD_VALUE_TYPE cached = cuddV(r);
+	cuddRef(r);
+	Cudd_RecursiveDeref(dd,r);
+	if (cached <= tolerance) return(1);
     }
 
     /* Compute the cofactors and solve the recursive subproblems. */
@@ -810,7 +814,12 @@ Cudd_EqualSupNorm(
     if (!Cudd_EqualSupNorm(dd,fv,gv,tolerance,pr)) return(0);
     if (!Cudd_EqualSupNorm(dd,fvn,gvn,tolerance,pr)) return(0);
 
-    cuddCacheInsert2(dd,(DD_CTFP)Cudd_EqualSupNorm,f,g,DD_ONE(dd));
+    r = cuddUniqueConst(dd,tolerance);
+    if (r != NULL) {
+	cuddRef(r);
+	cuddCacheInsert2(dd,(DD_CTFP)Cudd_EqualSupNorm,f,g,r);
+	Cudd_RecursiveDeref(dd,r);
+    }
 
     return(1);
 
-- 
2.43.0


From 31cc30c925ce281915dcca34623489d05ce45f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:20 +0000
Subject: [PATCH 57/97] fix: Cudd_bddMakePrime followed a stale cube after
 reordering

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c
index 2a0f3af..78cb413 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c
@@ -984,7 +984,7 @@ cuddBddMakePrime(
     while (!Cudd_IsConstantInt(scan)) {
 	DdNode *reg = Cudd_Regular(scan);
 	DdNode *var = dd->vars[reg->index];
-	DdNode *expanded = Cudd_bddExistAbstract(dd,res,var);
+	DdNode *expanded = cuddBddExistAbstractRecur(dd,res,var);
 	if (expanded == NULL) {
             Cudd_RecursiveDeref(dd,res);
 	    return(NULL);
-- 
2.43.0


From 597a44bf7a5e017c63914c1d79c8fc8282d65271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:20 +0000
Subject: [PATCH 58/97] fix: Cudd_CofMinterm read out of bounds for constants

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddSign.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddSign.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddSign.c
index e2d50f8..63ffb2a 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddSign.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddSign.c
@@ -127,7 +127,7 @@ Cudd_CofMinterm(
 	result = ALLOC(double,size + 1);
 	if (result != NULL) {
 	    if (Cudd_IsConstantInt(node))
-		firstLevel = 1;
+		firstLevel = size;
 	    else
 		firstLevel = cuddI(dd,Cudd_Regular(node)->index);
 	    for (i = 0; i < size; i++) {
-- 
2.43.0


From af62105f71e2e703bf94a520efb10561dadef9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:20 +0000
Subject: [PATCH 59/97] fix: Cudd_SolveEqn leaked the partial solution when it
 was interrupted by reordering

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddSolve.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddSolve.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddSolve.c
index c1af278..2816b48 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddSolve.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddSolve.c
@@ -111,6 +111,7 @@ Cudd_SolveEqn(
 {
     DdNode *res;
     int *temp;
+    int i;
 
     *yIndex = temp = ALLOC(int, n);
     if (temp == NULL) {
@@ -122,7 +123,14 @@ Cudd_SolveEqn(
 
     do {
 	bdd->reordered = 0;
+	for (i = 0; i < n; i++) G[i] = NULL;
 	res = cuddSolveEqnRecur(bdd, F, Y, G, n, temp, 0);
+	if (res == NULL) {
+	    /* Release the part of the solution found so far. */
+	    for (i = 0; i < n; i++) {
+		if (G[i] != NULL) Cudd_RecursiveDeref(bdd, G[i]);
+	    }
+	}
     } while (bdd->reordered == 1);
     if (bdd->errorCode == CUDD_TIMEOUT_EXPIRED && bdd->timeoutHandler) {
         bdd->timeoutHandler(bdd, bdd->tohArg);
-- 
2.43.0


From 0f0433f04522a2a372b82e62811be75bc40edd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:20 +0000
Subject: [PATCH 60/97] fix: selectMintermsFromUniverse leaked a reference

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddSplit.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddSplit.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddSplit.c
index f806f6d..6515381 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddSplit.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddSplit.c
@@ -519,6 +519,8 @@ selectMintermsFromUniverse(
 	Cudd_RecursiveDeref(manager,vars[i]);
     FREE(vars);
 
+    if (result)
+	cuddDeref(result);
     return(result);
 
 } /* end of selectMintermsFromUniverse */
-- 
2.43.0


From 0b904e4af658e96d60c8ca2dfd957490feb413f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:20 +0000
Subject: [PATCH 61/97] fix: node creation failed when reordering was due but
 had nothing to do

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c
index 6779800..e542284 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c
@@ -1187,6 +1187,7 @@ cuddUniqueInter(
     /* countDead is 0 if deads should be counted and ~0 if they should not. */
     if (unique->autoDyn &&
         unique->keys - (unique->dead & unique->countDead) >= unique->nextDyn &&
+        unique->keys - unique->dead >= 10 && /* otherwise no reordering occurs */
         unique->maxReorderings > 0) {
         unsigned long cpuTime;
 #ifdef DD_DEBUG
@@ -1448,7 +1449,8 @@ cuddUniqueInterZdd(
 
     /* countDead is 0 if deads should be counted and ~0 if they should not. */
     if (unique->autoDynZ &&
-        unique->keysZ - (unique->deadZ & unique->countDead) >= unique->nextDyn) {
+        unique->keysZ - (unique->deadZ & unique->countDead) >= unique->nextDyn &&
+        unique->keysZ - unique->deadZ >= 10) { /* otherwise no reordering occurs */
 #ifdef DD_DEBUG
 	retval = Cudd_DebugCheck(unique);
 	if (retval != 0) return(NULL);
-- 
2.43.0


From d0e50998eb1e243eecca380c0403bc98ed257ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:20 +0000
Subject: [PATCH 62/97] fix: cuddUniqueConst took tiny constants for zero

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c
index e542284..7722421 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c
@@ -1553,11 +1553,13 @@ cuddUniqueConst(
     /* Here we compare values both for equality and for difference less
      * than epsilon. The first comparison is required when values are
      * infinite, since Infinity - Infinity is NaN and NaN < X is 0 for
-     * every X.
+     * every X.  Zero only matches itself: there may be constants smaller
+     * than epsilon, created while epsilon was smaller (see
+     * Cudd_CountMinterm).
      */
     while (looking != NULL) {
-	if (looking->type.value == value ||
-	ddEqualVal(looking->type.value,value,unique->epsilon)) {
+	if (looking->type.value == value || (value != 0.0 &&
+	ddEqualVal(looking->type.value,value,unique->epsilon))) {
 	    if (looking->ref == 0) {
 		cuddReclaim(unique,looking);
 	    }
-- 
2.43.0


From 6be6c8783212ed7f0586e7622482260cdbc9daea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:20 +0000
Subject: [PATCH 63/97] fix: cuddZddGetCofactors2 did not protect the first
 cofactor

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddZddFuncs.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddFuncs.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddFuncs.c
index 5f6d63c..6cf20cd 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddFuncs.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddFuncs.c
@@ -1444,11 +1444,13 @@ cuddZddGetCofactors2(
     *f1 = cuddZddSubset1(dd, f, v);
     if (*f1 == NULL)
 	return(1);
+    Cudd_Ref(*f1);
     *f0 = cuddZddSubset0(dd, f, v);
     if (*f0 == NULL) {
 	Cudd_RecursiveDerefZdd(dd, *f1);
 	return(1);
     }
+    Cudd_Deref(*f1);
     return(0);
 
 } /* end of cuddZddGetCofactors2 */
-- 
2.43.0


From a0510c7e5c5261c2f2687c78ffe00cb7ccd5d539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:20 +0000
Subject: [PATCH 64/97] fix: Cudd_zddDiffConst shared cache entries with
 cuddZddDiff

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddZddSetop.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddSetop.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddSetop.c
index 18172b8..d03cd72 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddSetop.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddSetop.c
@@ -233,8 +233,14 @@ Cudd_zddDiffConst(
 
     /* Check cache.  The cache is shared by cuddZddDiff(). */
     res = cuddCacheLookup2Zdd(table, cuddZddDiff, P, Q);
-    if (res != NULL)
-	return(res);
+    if (res != NULL) {
+	if (res == empty)
+	    return(res);
+	/* Release the difference, which the lookup may have reclaimed. */
+	cuddRef(res);
+	Cudd_RecursiveDerefZdd(zdd, res);
+	return(DD_NON_CONSTANT);
+    }
 
     if (cuddIsConstant(P))
 	p_top = P->index;
@@ -256,7 +262,9 @@ Cudd_zddDiffConst(
 	    res = Cudd_zddDiffConst(zdd, cuddE(P), cuddE(Q));
     }
 
-    cuddCacheInsert2(table, cuddZddDiff, P, Q, res);
+    /* cuddZddDiff() cannot deal with DD_NON_CONSTANT. */
+    if (res != DD_NON_CONSTANT)
+	cuddCacheInsert2(table, cuddZddDiff, P, Q, res);
 
     return(res);
 
-- 
2.43.0


From 91594fe2a9a09185020500ffee80972ac62b6a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:20 +0000
Subject: [PATCH 65/97] fix: Mtr_MakeGroup accepted groups that cut a later
 group

---
 src/symbolic_search/cudd-3.0.0/mtr/mtrGroup.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/symbolic_search/cudd-3.0.0/mtr/mtrGroup.c b/src/symbolic_search/cudd-3.0.0/mtr/mtrGroup.c
index 899a0d4..2511a5b 100644
--- a/src/symbolic_search/cudd-3.0.0/mtr/mtrGroup.c
+++ b/src/symbolic_search/cudd-3.0.0/mtr/mtrGroup.c
@@ -275,6 +275,11 @@ Mtr_MakeGroup(
 	/* Trying to cut an existing group: not allowed. */
 	return(NULL);
     }
+    if (last->younger != NULL &&
+	low + size > (unsigned int) last->younger->low) {
+	/* Trying to cut the group following last: not allowed. */
+	return(NULL);
+    }
 
     /* First and last point to the first and last of the children of
     ** root that are included in the new group. Allocate a new node
-- 
2.43.0


From 2a3e3d571bb4cda6feeb3805d727df371592148a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:04 +0000
Subject: [PATCH 66/97] Revert "fix: two-literal clauses assumed that the label
 has the least index"

This reverts commit 2d0e1abf404fc65e9ceb33fa7e58055ad1981c12.
---
 .../cudd-3.0.0/cudd/cuddEssent.c              | 37 ++++++-------------
 1 file changed, 11 insertions(+), 26 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddEssent.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddEssent.c
index ab4de53..64d9000 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddEssent.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddEssent.c
@@ -766,7 +766,6 @@ computeClauses(
     TlClause *nclauses = NULL; /* list of new (non-inherited) clauses */
     TlClause *lnclause = NULL; /* pointer to last new clause */
     TlClause *newclause; /* temporary pointer to new clauses */
-    TlClause **place; /* place of the label in the lists */
 
     /* Initialize sets of one-literal clauses.  The one-literal clauses
     ** are stored redundantly.  These sets allow constant-time lookup, which
@@ -792,9 +791,7 @@ computeClauses(
     ** one child that are implied by a one-literal clause of the other
     ** child. */
     while (!sentinelp(Tcv[pt], Tcv[pt+1]) || !sentinelp(Ecv[pe], Ecv[pe+1])) {
-	int tdone = sentinelp(Tcv[pt], Tcv[pt+1]);
-	int edone = sentinelp(Ecv[pe], Ecv[pe+1]);
-	if (!tdone && !edone && equalp(Tcv[pt], bitVectorRead(Tcp, pt),
+	if (equalp(Tcv[pt], bitVectorRead(Tcp, pt),
 		   Tcv[pt+1], bitVectorRead(Tcp, pt+1),
 		   Ecv[pe], bitVectorRead(Ecp, pe),
 		   Ecv[pe+1], bitVectorRead(Ecp, pe+1))) {
@@ -808,10 +805,10 @@ computeClauses(
 	    newclause->next = iclauses;
 	    iclauses = newclause;
 	    pt += 2; pe += 2; cv++;
-	} else if (edone || (!tdone && beforep(Tcv[pt], bitVectorRead(Tcp, pt),
+	} else if (beforep(Tcv[pt], bitVectorRead(Tcp, pt),
 		   Tcv[pt+1], bitVectorRead(Tcp, pt+1),
 		   Ecv[pe], bitVectorRead(Ecp, pe),
-		   Ecv[pe+1], bitVectorRead(Ecp, pe+1)))) {
+		   Ecv[pe+1], bitVectorRead(Ecp, pe+1))) {
 	    if (oneliteralp(Tcv[pt+1])) {
 		/* Add this one-literal clause to the T set. */
 		newclause = ALLOC(TlClause,1);
@@ -874,29 +871,24 @@ computeClauses(
 	}
     }
 
-    /* Add one-literal clauses for the label variable to the two lists.
-    ** Its index is the least one only if the variables have not been
-    ** reordered. */
+    /* Add one-literal clauses for the label variable to the front of
+    ** the two lists. */
     newclause = ALLOC(TlClause,1);
     if (newclause == NULL) goto cleanup;
     newclause->v1 = label;
     newclause->v2 = CUDD_MAXINDEX;
     newclause->p1 = 0;
     newclause->p2 = 1;
-    place = &tclauses;
-    while (*place != NULL && (*place)->v1 < label) place = &(*place)->next;
-    newclause->next = *place;
-    *place = newclause;
+    newclause->next = tclauses;
+    tclauses = newclause;
     newclause = ALLOC(TlClause,1);
     if (newclause == NULL) goto cleanup;
     newclause->v1 = label;
     newclause->v2 = CUDD_MAXINDEX;
     newclause->p1 = 1;
     newclause->p2 = 1;
-    place = &eclauses;
-    while (*place != NULL && (*place)->v1 < label) place = &(*place)->next;
-    newclause->next = *place;
-    *place = newclause;
+    newclause->next = eclauses;
+    eclauses = newclause;
 
     /* Produce the non-inherited clauses.  We preserve the "reverse"
     ** order of the two input lists by appending to the end of the
@@ -1079,8 +1071,8 @@ computeClausesWithUniverse(
     if (Vcp == NULL) goto cleanup;
     res->vars = Vcv;
     res->phases = Vcp;
-    /* Copy the clauses that come before the one of the label. */
-    for (i = 0; !sentinelp(Ccv[i], Ccv[i+1]) && Ccv[i] > label; i += 2) {
+    /* Copy old list into new. */
+    for (i = 0; !sentinelp(Ccv[i], Ccv[i+1]); i += 2) {
 	Vcv[i] = Ccv[i];
 	Vcv[i+1] = Ccv[i+1];
 	bitVectorSet(Vcp, i, bitVectorRead(Ccp, i));
@@ -1093,13 +1085,6 @@ computeClausesWithUniverse(
     Vcv[i] = CUDD_MAXINDEX;
     bitVectorSet(Vcp, i, 1);
     i++;
-    /* Copy the other clauses. */
-    for (; !sentinelp(Ccv[i-2], Ccv[i-1]); i += 2) {
-	Vcv[i] = Ccv[i-2];
-	Vcv[i+1] = Ccv[i-1];
-	bitVectorSet(Vcp, i, bitVectorRead(Ccp, i-2));
-	bitVectorSet(Vcp, i+1, bitVectorRead(Ccp, i-1));
-    }
     /* Add sentinel. */
     Vcv[i] = 0;
     Vcv[i+1] = 0;
-- 
2.43.0


From 98ed29d7dd62ad39980d370849f60b71a8ab2b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:46 +0000
Subject: [PATCH 67/97] fix: the merge of two-literal clauses went past the end
 of its lists

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddEssent.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddEssent.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddEssent.c
index 64d9000..91dd125 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddEssent.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddEssent.c
@@ -791,7 +791,9 @@ computeClauses(
     ** one child that are implied by a one-literal clause of the other
     ** child. */
     while (!sentinelp(Tcv[pt], Tcv[pt+1]) || !sentinelp(Ecv[pe], Ecv[pe+1])) {
-	if (equalp(Tcv[pt], bitVectorRead(Tcp, pt),
+	int tdone = sentinelp(Tcv[pt], Tcv[pt+1]);
+	int edone = sentinelp(Ecv[pe], Ecv[pe+1]);
+	if (!tdone && !edone && equalp(Tcv[pt], bitVectorRead(Tcp, pt),
 		   Tcv[pt+1], bitVectorRead(Tcp, pt+1),
 		   Ecv[pe], bitVectorRead(Ecp, pe),
 		   Ecv[pe+1], bitVectorRead(Ecp, pe+1))) {
@@ -805,10 +807,10 @@ computeClauses(
 	    newclause->next = iclauses;
 	    iclauses = newclause;
 	    pt += 2; pe += 2; cv++;
-	} else if (beforep(Tcv[pt], bitVectorRead(Tcp, pt),
+	} else if (edone || (!tdone && beforep(Tcv[pt], bitVectorRead(Tcp, pt),
 		   Tcv[pt+1], bitVectorRead(Tcp, pt+1),
 		   Ecv[pe], bitVectorRead(Ecp, pe),
-		   Ecv[pe+1], bitVectorRead(Ecp, pe+1))) {
+		   Ecv[pe+1], bitVectorRead(Ecp, pe+1)))) {
 	    if (oneliteralp(Tcv[pt+1])) {
 		/* Add this one-literal clause to the T set. */
 		newclause = ALLOC(TlClause,1);
-- 
2.43.0


From 3d7e1e67f97e6b339813416b7216d079eb5df2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:27 +0000
Subject: [PATCH 68/97] fix: the factored form of a diagram had an unbalanced
 parenthesis

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddExport.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddExport.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddExport.c
index 4107b2d..621b3c6 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddExport.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddExport.c
@@ -1384,7 +1384,7 @@ ddDoDumpFactoredForm(
 	if (retval == EOF) return(0);
 	retval = ddDoDumpFactoredForm(dd,E,fp,names);
 	if (retval != 1) return(retval);
-	retval = fprintf(fp, "%s", Cudd_bddIsVar(dd, E) ? "" : "(");
+	retval = fprintf(fp, "%s", Cudd_bddIsVar(dd, E) ? "" : ")");
 	if (retval == EOF) return(0);
     }
     return(1);
-- 
2.43.0


From 30e146306cd5e7d5bef387059b206e679627e02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:27 +0000
Subject: [PATCH 69/97] fix: loading a diagram file lost references to
 constants and ADD nodes

---
 src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoad.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoad.c b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoad.c
index d00502e..d5d5999 100644
--- a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoad.c
+++ b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoad.c
@@ -964,6 +964,8 @@ DddmpCuddDdArrayLoad (
         case DDDMP_TERMINAL:     
           /* only 1 terminal presently supported */    
           pnodes[i] = Cudd_ReadOne (ddMgr);       
+          /* all nodes are dereferenced at the end */
+          Cudd_Ref (pnodes[i]);
           continue; 
           break;
         case DDDMP_RELATIVE_1:
@@ -1090,12 +1092,14 @@ DddmpCuddDdArrayLoad (
       case DDDMP_BDD: 
         pnodes[i] = Cudd_bddIte (ddMgr, Cudd_bddIthVar (ddMgr, var),
           T, E);
+        cuddRef (pnodes[i]);
         break;
       case DDDMP_ADD: 
         { 
         DdNode *tmp = Cudd_addIthVar (ddMgr, var);
         Cudd_Ref (tmp);
         pnodes[i] = Cudd_addIte (ddMgr, tmp, T, E);
+        cuddRef (pnodes[i]);
         Cudd_RecursiveDeref (ddMgr, tmp);
         break;
         }
@@ -1105,7 +1109,6 @@ DddmpCuddDdArrayLoad (
         break;
      }
 
-    cuddRef (pnodes[i]);
   }
 
   /*------------------------ Deal With the File Tail -----------------------*/
-- 
2.43.0


From c1d682cbfdd48720239f600013a5d8846f33216b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:27 +0000
Subject: [PATCH 70/97] fix: matching variables by auxiliary ids only
 considered the ids of the file

---
 src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoad.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoad.c b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoad.c
index d5d5999..649871f 100644
--- a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoad.c
+++ b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoad.c
@@ -761,8 +761,10 @@ DddmpCuddDdArrayLoad (
         invauxids[i] = -1;
       }
 
-      for (i=0; i<Hdr->nsuppvars; i++) {
-        invauxids[varmatchauxids[Hdr->ids[i]]] = Hdr->ids[i];
+      for (i=0; i<nddvars; i++) {
+        if (varmatchauxids[i] >= 0) {
+          invauxids[varmatchauxids[i]] = i;
+        }
       }
 
       /* generate convertids array */
-- 
2.43.0


From 1f5b411971acde859f2fb5bd9ecb208acfcdc8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:27 +0000
Subject: [PATCH 71/97] fix: matching roots by name loaded them in the order of
 the file

---
 src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoad.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoad.c b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoad.c
index 649871f..6aa9b58 100644
--- a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoad.c
+++ b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoad.c
@@ -1148,7 +1148,7 @@ DddmpCuddDdArrayLoad (
         break;
     }
 
-    id = Hdr->rootids[i];
+    id = (j < nRoots) ? Hdr->rootids[j] : 0;
     if (id==0) {
       (void) fprintf (stderr, "DdLoad Warning: NULL root found in file\n");
       fflush (stderr);
@@ -1162,7 +1162,9 @@ DddmpCuddDdArrayLoad (
     }
     proots[i] = f;
 
-    cuddRef (f);
+    if (f != NULL) {
+      cuddRef (f);
+    }
   } /* end for i = 0..nRoots */
 
   /*
-- 
2.43.0


From 43f79d41bd0e9a987b4bbab679eb703784fef7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:27 +0000
Subject: [PATCH 72/97] fix: loading CNF files shared clauses between roots and
 lost references

---
 src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoadCnf.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoadCnf.c b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoadCnf.c
index 3642b8c..82554bf 100644
--- a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoadCnf.c
+++ b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoadCnf.c
@@ -120,7 +120,7 @@ Dddmp_cuddBddLoadCnf (
       "Warning: %d BDD roots found in file. Only first retrieved.\n",
       *nRoots);
     for (i=1; i<*nRoots; i++) {
-      Cudd_RecursiveDeref (ddMgr, *rootsPtrPtr[i]);
+      Cudd_RecursiveDeref (ddMgr, (*rootsPtrPtr)[i]);
     } 
   } 
 
@@ -984,7 +984,7 @@ DddmpCnfClauses2Bdd (
       toLine = Hdr->nClausesCnf;
     } else {
       fromLine = Hdr->rootids[i] - 1;
-      toLine = Hdr->rootids[i+1];
+      toLine = Hdr->rootids[i+1] - 1;
     }
 
     tmp1 = Cudd_ReadOne (ddMgr);
@@ -1035,6 +1035,7 @@ DddmpCnfClauses2Bdd (
 #endif
 
     tmp1 = Cudd_bddExistAbstract (ddMgr, rootsPtr[i], cubeCnfVar);
+    Cudd_Ref (tmp1);
     Cudd_RecursiveDeref (ddMgr, rootsPtr[i]);
     rootsPtr[i] = tmp1;
 
-- 
2.43.0


From eebce88e11bc59f60ae86b735eb6f8ad2a3f50f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:27 +0000
Subject: [PATCH 73/97] fix: the CNF header counted variables once per root

---
 src/symbolic_search/cudd-3.0.0/dddmp/dddmpStoreCnf.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpStoreCnf.c b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpStoreCnf.c
index 0806da0..7661e6f 100644
--- a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpStoreCnf.c
+++ b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpStoreCnf.c
@@ -378,7 +378,9 @@ DddmpCuddBddArrayStoreCnf (
     scan = support;
     while (!cuddIsConstant(scan)) {
       /* Count Number of Variable in the Support */
-      nVarInSupport++;
+      if (bddIdsInSupport[scan->index] < 0) {
+        nVarInSupport++;
+      }
       /* Set Ids and Perm-Ids */
       bddIdsInSupport[scan->index] = scan->index;
       permIdsInSupport[scan->index] = ddMgr->perm[scan->index];
-- 
2.43.0


From 2ba21c244d2e0067f594639050385cd71acdaa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:27 +0000
Subject: [PATCH 74/97] fix: the CNF store took the variable numbered 1 for the
 constant

---
 .../cudd-3.0.0/dddmp/dddmpStoreCnf.c                | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpStoreCnf.c b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpStoreCnf.c
index 7661e6f..08d3100 100644
--- a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpStoreCnf.c
+++ b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpStoreCnf.c
@@ -971,6 +971,11 @@ StoreCnfOneNode (
 {
   int retValue = 0;
   int idfAbs, idTAbs, idEAbs;
+  int constT, constE;
+
+  /* the index of the constant is also the CNF id of a variable */
+  constT = Cudd_IsConstant (cuddT (f));
+  constE = Cudd_IsConstant (cuddE (f));
 
   idfAbs = abs (idf);
   idTAbs = abs (idT);
@@ -982,7 +987,7 @@ StoreCnfOneNode (
 
   /*------------------------- Check for terminal nodes ----------------------*/
 
-  if ((idTAbs==1) && (idEAbs==1)) { 
+  if (constT && constE) { 
     return (1);
   }
 
@@ -997,7 +1002,7 @@ StoreCnfOneNode (
    *  Then to terminal
    */
 
-  if ((idTAbs==1) && (idEAbs!=1)) {
+  if (constT && !constE) {
 #if DDDMP_DEBUG_CNF
     retValue = fprintf (fp, "CASE 1 -->\n");
 #endif
@@ -1018,7 +1023,7 @@ StoreCnfOneNode (
    *  Else to terminal
    */
 
-  if ((idTAbs!=1) && (idEAbs==1)) {
+  if (!constT && constE) {
     if (idE == 1) {
 #if DDDMP_DEBUG_CNF
       retValue = fprintf (fp, "CASE 2 -->\n");
@@ -1052,7 +1057,7 @@ StoreCnfOneNode (
    *  Nor Then or Else to terminal
    */
 
-  if ((idTAbs!=1) && (idEAbs!=1)) {
+  if (!constT && !constE) {
 #if DDDMP_DEBUG_CNF
     retValue = fprintf (fp, "CASE 4 -->\n");
 #endif
-- 
2.43.0


From a04b6f7c7648b5119d7489709f27712cadcf4826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:27 +0000
Subject: [PATCH 75/97] fix: definitions in SMV files lacked their semicolon

---
 src/symbolic_search/cudd-3.0.0/dddmp/dddmpStoreMisc.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpStoreMisc.c b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpStoreMisc.c
index c8c2195..a3a619c 100644
--- a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpStoreMisc.c
+++ b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpStoreMisc.c
@@ -1355,10 +1355,10 @@ DddmpCuddDdArrayStoreSmvBody (
       "Error during file store.", failure);
 
     if (Cudd_IsComplement(f[i])) {
-      retValue = fprintf (fp, "!node%" PRIxPTR "\n",
+      retValue = fprintf (fp, "!node%" PRIxPTR ";\n",
         (ptruint) f[i] / sizeof(DdNode));
     } else {
-      retValue = fprintf (fp, "node%" PRIxPTR "\n",
+      retValue = fprintf (fp, "node%" PRIxPTR ";\n",
         (ptruint) f[i] / sizeof(DdNode));
     }
     Dddmp_CheckAndGotoLabel (retValue==EOF,
@@ -1506,10 +1506,10 @@ DddmpCuddDdArrayStoreSmvStep (
   }
 
   if (Cudd_IsComplement(cuddE(f))) {
-    retValue = fprintf (fp, "& !node%" PRIxPTR "\n",
+    retValue = fprintf (fp, "& !node%" PRIxPTR ";\n",
       (ptruint) E / sizeof(DdNode));
   } else {
-    retValue = fprintf (fp, "& node%" PRIxPTR "\n",
+    retValue = fprintf (fp, "& node%" PRIxPTR ";\n",
       (ptruint) E / sizeof(DdNode));
   }
 
-- 
2.43.0


From e8b3d96e00371ebc823b05b7089a99b5e411345b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:27 +0000
Subject: [PATCH 76/97] fix: storing a diagram dropped other constants from the
 unique table

---
 .../cudd-3.0.0/dddmp/dddmpNodeAdd.c           | 64 ++++++++++++++++---
 .../cudd-3.0.0/dddmp/dddmpNodeBdd.c           | 64 ++++++++++++++++---
 .../cudd-3.0.0/dddmp/dddmpNodeCnf.c           | 64 ++++++++++++++++---
 3 files changed, 165 insertions(+), 27 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpNodeAdd.c b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpNodeAdd.c
index 5185c57..e77fe05 100644
--- a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpNodeAdd.c
+++ b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpNodeAdd.c
@@ -50,6 +50,7 @@
 /* Static function prototypes                                                */
 /*---------------------------------------------------------------------------*/
 
+static DdNode **ConstantBucketAdd(DdManager *ddMgr, DdNode *f);
 static int NumberNodeRecurAdd(DdNode *f, int id);
 static void RemoveFromUniqueRecurAdd(DdManager *ddMgr, DdNode *f);
 static void RestoreInUniqueRecurAdd(DdManager *ddMgr, DdNode *f);
@@ -261,6 +262,36 @@ DddmpClearVisitedAdd (
 /* Definition of static functions                                            */
 /*---------------------------------------------------------------------------*/
 
+/**Function********************************************************************
+
+  Synopsis     [Finds the bucket of the unique table that holds a constant]
+
+  Description  [Finds the bucket of the unique table that holds a constant.
+    The hash function is the one of cuddUniqueConst.]
+
+  SideEffects  [None]
+
+  SeeAlso      []
+
+******************************************************************************/
+
+static DdNode **
+ConstantBucketAdd (
+  DdManager *ddMgr  /*  IN: DD Manager */,
+  DdNode *f         /*  IN: constant node */
+  )
+{
+  union {
+    CUDD_VALUE_TYPE value;
+    unsigned int bits[2];
+  } split;
+
+  split.value = cuddV (f);
+
+  return (&(ddMgr->constants.nodelist[ddHash (split.bits[0], split.bits[1],
+    ddMgr->constants.shift)]));
+}
+
 /**Function********************************************************************
 
   Synopsis     [Number nodes recursively in post-order]
@@ -305,7 +336,7 @@ NumberNodeRecurAdd (
 
   Description [Removes a node from the unique table by locating the proper
     subtable and unlinking the node from it. It recurs on the 
-    children of the node. Constants remain untouched.
+    children of the node. Constants are unlinked as well.
     ]
 
   SideEffects [Nodes are left with the "visited" flag true.]
@@ -322,7 +353,7 @@ RemoveFromUniqueRecurAdd (
 {
   DdNode *node, *last, *next;
   DdNode *sentinel = &(ddMgr->sentinel);
-  DdNodePtr *nodelist;
+  DdNodePtr *nodelist, *previousP;
   DdSubtable *subtable;
   int pos, level;
 
@@ -361,6 +392,17 @@ RemoveFromUniqueRecurAdd (
 
     f->next = NULL;
 
+  } else {
+
+    /* the bucket of a constant may hold other constants */
+    previousP = ConstantBucketAdd (ddMgr, f);
+    while (*previousP != f) {
+      previousP = &((*previousP)->next);
+    }
+    *previousP = f->next;
+
+    f->next = NULL;
+
   }
 
   DddmpSetVisitedAdd (f);
@@ -398,16 +440,20 @@ RestoreInUniqueRecurAdd (
 
   f = Cudd_Regular(f);
 
-  if (!Cudd_IsComplement (f->next)) {
+  if (cuddIsConstant (f)) {
+    previousP = ConstantBucketAdd (ddMgr, f);
+    for (looking = *previousP; looking != NULL; looking = looking->next) {
+      if (looking == f) {
+        return;
+      }
+    }
+    f->next = *previousP;
+    *previousP = f;
+
     return;
   }
 
-  if (cuddIsConstant (f)) {
-    /* StQ 11.02.2004:
-       Bug fixed --> restore NULL within the next field */
-    /*DddmpClearVisitedAdd (f);*/
-    f->next = NULL;
-
+  if (!Cudd_IsComplement (f->next)) {
     return;
   }
 
diff --git a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpNodeBdd.c b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpNodeBdd.c
index 8699a91..57ef612 100644
--- a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpNodeBdd.c
+++ b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpNodeBdd.c
@@ -50,6 +50,7 @@
 /* Static function prototypes                                                */
 /*---------------------------------------------------------------------------*/
 
+static DdNode **ConstantBucketBdd(DdManager *ddMgr, DdNode *f);
 static int NumberNodeRecurBdd(DdNode *f, int id);
 static void RemoveFromUniqueRecurBdd(DdManager *ddMgr, DdNode *f);
 static void RestoreInUniqueRecurBdd(DdManager *ddMgr, DdNode *f);
@@ -262,6 +263,36 @@ DddmpClearVisitedBdd (
 /* Definition of static functions                                            */
 /*---------------------------------------------------------------------------*/
 
+/**Function********************************************************************
+
+  Synopsis     [Finds the bucket of the unique table that holds a constant]
+
+  Description  [Finds the bucket of the unique table that holds a constant.
+    The hash function is the one of cuddUniqueConst.]
+
+  SideEffects  [None]
+
+  SeeAlso      []
+
+******************************************************************************/
+
+static DdNode **
+ConstantBucketBdd (
+  DdManager *ddMgr  /*  IN: DD Manager */,
+  DdNode *f         /*  IN: constant node */
+  )
+{
+  union {
+    CUDD_VALUE_TYPE value;
+    unsigned int bits[2];
+  } split;
+
+  split.value = cuddV (f);
+
+  return (&(ddMgr->constants.nodelist[ddHash (split.bits[0], split.bits[1],
+    ddMgr->constants.shift)]));
+}
+
 /**Function********************************************************************
 
   Synopsis     [Number nodes recursively in post-order]
@@ -306,7 +337,7 @@ NumberNodeRecurBdd (
 
   Description [Removes a node from the unique table by locating the proper
     subtable and unlinking the node from it. It recurs on the 
-    children of the node. Constants remain untouched.
+    children of the node. Constants are unlinked as well.
     ]
 
   SideEffects [Nodes are left with the "visited" flag true.]
@@ -323,7 +354,7 @@ RemoveFromUniqueRecurBdd (
 {
   DdNode *node, *last, *next;
   DdNode *sentinel = &(ddMgr->sentinel);
-  DdNodePtr *nodelist;
+  DdNodePtr *nodelist, *previousP;
   DdSubtable *subtable;
   int pos, level;
 
@@ -362,6 +393,17 @@ RemoveFromUniqueRecurBdd (
 
     f->next = NULL;
 
+  } else {
+
+    /* the bucket of a constant may hold other constants */
+    previousP = ConstantBucketBdd (ddMgr, f);
+    while (*previousP != f) {
+      previousP = &((*previousP)->next);
+    }
+    *previousP = f->next;
+
+    f->next = NULL;
+
   }
 
   DddmpSetVisitedBdd (f);
@@ -399,16 +441,20 @@ RestoreInUniqueRecurBdd (
 
   f = Cudd_Regular(f);
 
-  if (!Cudd_IsComplement (f->next)) {
+  if (cuddIsConstant (f)) {
+    previousP = ConstantBucketBdd (ddMgr, f);
+    for (looking = *previousP; looking != NULL; looking = looking->next) {
+      if (looking == f) {
+        return;
+      }
+    }
+    f->next = *previousP;
+    *previousP = f;
+
     return;
   }
 
-  if (cuddIsConstant (f)) {
-    /* StQ 11.02.2004:
-       Bug fixed --> restore NULL within the next field */
-    /*DddmpClearVisitedBdd (f);*/   
-    f->next = NULL;
-
+  if (!Cudd_IsComplement (f->next)) {
     return;
   }
 
diff --git a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpNodeCnf.c b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpNodeCnf.c
index 1aacadc..cc3d5ea 100644
--- a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpNodeCnf.c
+++ b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpNodeCnf.c
@@ -59,6 +59,7 @@ static int DddmpWriteNodeIndexCnfWithTerminalCheck(DdNode *f, int *cnfIds, int i
 static int DddmpClearVisitedCnfRecur(DdNode *f);
 #endif
 static void DddmpClearVisitedCnf(DdNode *f);
+static DdNode **ConstantBucketCnf(DdManager *ddMgr, DdNode *f);
 static int NumberNodeRecurCnf(DdNode *f, int *cnfIds, int id);
 static void DddmpDdNodesCheckIncomingAndScanPath(DdNode *f, int pathLengthCurrent, int edgeInTh, int pathLengthTh);
 static int DddmpDdNodesNumberEdgesRecur(DdNode *f, int *cnfIds, int id);
@@ -392,6 +393,36 @@ DddmpReadNodeIndexCnf (
 /* Definition of static functions                                            */
 /*---------------------------------------------------------------------------*/
 
+/**Function********************************************************************
+
+  Synopsis     [Finds the bucket of the unique table that holds a constant]
+
+  Description  [Finds the bucket of the unique table that holds a constant.
+    The hash function is the one of cuddUniqueConst.]
+
+  SideEffects  [None]
+
+  SeeAlso      []
+
+******************************************************************************/
+
+static DdNode **
+ConstantBucketCnf (
+  DdManager *ddMgr  /*  IN: DD Manager */,
+  DdNode *f         /*  IN: constant node */
+  )
+{
+  union {
+    CUDD_VALUE_TYPE value;
+    unsigned int bits[2];
+  } split;
+
+  split.value = cuddV (f);
+
+  return (&(ddMgr->constants.nodelist[ddHash (split.bits[0], split.bits[1],
+    ddMgr->constants.shift)]));
+}
+
 /**Function********************************************************************
 
   Synopsis     [Write index to node]
@@ -731,7 +762,7 @@ DddmpDdNodesCountEdgesRecur (
 
   Description [Removes a node from the unique table by locating the proper
     subtable and unlinking the node from it. It recurs on  on the 
-    children of the node. Constants remain untouched.
+    children of the node. Constants are unlinked as well.
     ]
 
   SideEffects [Nodes are left with the "visited" flag true.]
@@ -748,7 +779,7 @@ RemoveFromUniqueRecurCnf (
 {
   DdNode *node, *last, *next;
   DdNode *sentinel = &(ddMgr->sentinel);
-  DdNodePtr *nodelist;
+  DdNodePtr *nodelist, *previousP;
   DdSubtable *subtable;
   int pos, level;
 
@@ -787,6 +818,17 @@ RemoveFromUniqueRecurCnf (
 
     f->next = NULL;
 
+  } else {
+
+    /* the bucket of a constant may hold other constants */
+    previousP = ConstantBucketCnf (ddMgr, f);
+    while (*previousP != f) {
+      previousP = &((*previousP)->next);
+    }
+    *previousP = f->next;
+
+    f->next = NULL;
+
   }
 
   DddmpSetVisitedCnf (f);
@@ -824,16 +866,20 @@ RestoreInUniqueRecurCnf (
 
   f = Cudd_Regular(f);
 
-  if (!Cudd_IsComplement (f->next)) {
+  if (cuddIsConstant (f)) {
+    previousP = ConstantBucketCnf (ddMgr, f);
+    for (looking = *previousP; looking != NULL; looking = looking->next) {
+      if (looking == f) {
+        return;
+      }
+    }
+    f->next = *previousP;
+    *previousP = f;
+
     return;
   }
 
-  if (cuddIsConstant (f)) {
-    /* StQ 11.02.2004:
-       Bug fixed --> restore NULL within the next field */
-    /*DddmpClearVisitedCnf (f);*/
-    f->next = NULL;
-
+  if (!Cudd_IsComplement (f->next)) {
     return;
   }
 
-- 
2.43.0


From a0a1e53226f21fdcf2934da0793962cfb8447344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:27 +0000
Subject: [PATCH 77/97] fix: ADD files rounded the constants to six digits

---
 src/symbolic_search/cudd-3.0.0/dddmp/dddmpStoreAdd.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpStoreAdd.c b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpStoreAdd.c
index b304a88..0670b21 100644
--- a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpStoreAdd.c
+++ b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpStoreAdd.c
@@ -891,9 +891,9 @@ NodeTextStoreAdd (
      */
 
     if ((varnames != NULL) || (outids != NULL)) {
-      retValue = fprintf (fp, "%d T %g 0 0\n",idf,Cudd_V(f));
+      retValue = fprintf (fp, "%d T %.17g 0 0\n",idf,Cudd_V(f));
     } else {
-      retValue = fprintf (fp, "%d %g 0 0\n",idf, Cudd_V(f));
+      retValue = fprintf (fp, "%d %.17g 0 0\n",idf, Cudd_V(f));
     }
 
     if (retValue == EOF) {
-- 
2.43.0


From 6fc3b24639afa34e0c9b4dbf62204df16b766099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:27 +0000
Subject: [PATCH 78/97] fix: the search for parents of a bad node left the
 unique table

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddCheck.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddCheck.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddCheck.c
index 2026f12..48528f0 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddCheck.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddCheck.c
@@ -759,18 +759,19 @@ debugFindParent(
   DdManager * table,
   DdNode * node)
 {
-    int         i,j;
+    int         i,j,levels;
     int		slots;
     DdNodePtr	*nodelist;
     DdNode	*f;
 
-    for (i = 0; i < cuddI(table,node->index); i++) {
+    levels = cuddIsConstant(node) ? table->size : cuddI(table,node->index);
+    for (i = 0; i < levels; i++) {
 	nodelist = table->subtables[i].nodelist;
 	slots = table->subtables[i].slots;
 
 	for (j=0;j<slots;j++) {
 	    f = nodelist[j];
-	    while (f != NULL) {
+	    while (f != &table->sentinel) {
 		if (cuddT(f) == node || Cudd_Regular(cuddE(f)) == node) {
 		    (void) fprintf(table->out,"parent is at 0x%" PRIxPTR ", id = %u, ref = %u, then = 0x%" PRIxPTR ", else = 0x%" PRIxPTR "\n",
 			(ptruint)f,f->index,f->ref,(ptruint)cuddT(f),(ptruint)cuddE(f));
-- 
2.43.0


From 8fbdac1e47a466731d0035adce5021ff7d22899e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:35 +0000
Subject: [PATCH 79/97] fix: additive and FF heuristics overwrote smaller
 values of facts added by actions without preconditions

---
 src/heuristics/rcHeuristics/hsAddFF.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/heuristics/rcHeuristics/hsAddFF.cpp b/src/heuristics/rcHeuristics/hsAddFF.cpp
index 5c2f738..06fda05 100644
--- a/src/heuristics/rcHeuristics/hsAddFF.cpp
+++ b/src/heuristics/rcHeuristics/hsAddFF.cpp
@@ -128,9 +128,11 @@ namespace progression {
             int ac = m->precLessActions[i];
             for (int iAdd = 0; iAdd < m->numAdds[ac]; iAdd++) {
                 int fAdd = m->addLists[ac][iAdd];
-                hValProp[fAdd] = m->actionCosts[ac];
-                reachedBy[fAdd] = ac;
-                queue->add(hValProp[fAdd], fAdd);
+                if (m->actionCosts[ac] < hValProp[fAdd]) {
+                    hValProp[fAdd] = m->actionCosts[ac];
+                    reachedBy[fAdd] = ac;
+                    queue->add(hValProp[fAdd], fAdd);
+                }
             }
         }
         while (!queue->isEmpty()) {
-- 
2.43.0


From 2f4da5bd9acbd046078f71061cdb76d56b96d85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:35 +0000
Subject: [PATCH 80/97] fix: LM-cut indexed its arrays with UNREACHABLE for
 actions without preconditions

---
 src/heuristics/rcHeuristics/hsLmCut.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/heuristics/rcHeuristics/hsLmCut.cpp b/src/heuristics/rcHeuristics/hsLmCut.cpp
index eb366ef..32cdd74 100644
--- a/src/heuristics/rcHeuristics/hsLmCut.cpp
+++ b/src/heuristics/rcHeuristics/hsLmCut.cpp
@@ -193,6 +193,13 @@ void hsLmCut::calcGoalZone(noDelIntSet* goalZone, bucketSet* cut,
 			if (unsatPrecs[producer] > 0) // not reachable
 				continue;
 
+			if (m->numPrecs[producer] == 0) {
+				// always applicable; without costs, the goal would be for free
+				if (costs[producer] > 0)
+					cut->insert(producer);
+				continue;
+			}
+
 			int singlePrec = maxPrec[producer];
 			if (goalZone->get(singlePrec))
 				continue;
@@ -229,7 +236,7 @@ void hsLmCut::forwardReachabilityDFS(bucketSet& s0, bucketSet* cut,
 				int op = addToTask[pred][i];
 				if (unsatPrecs[op] > 0)
 					continue;
-				if (goalZone->get(maxPrec[op]))
+				if ((m->numPrecs[op] > 0) && (goalZone->get(maxPrec[op])))
 					continue;
 				if ((m->numPrecs[op] == 0) || (s0.get(maxPrec[op]))) { // reached s0
 					reachedS0 = true;
@@ -246,7 +253,7 @@ void hsLmCut::forwardReachabilityDFS(bucketSet& s0, bucketSet* cut,
 			remove->insert(f);
 	}
 	for (int op = cut->getFirst(); op >= 0; op = cut->getNext()) {
-		if (remove->get(maxPrec[op]))
+		if ((m->numPrecs[op] > 0) && (remove->get(maxPrec[op])))
 			cut->erase(op);
 	}
 }
@@ -270,8 +277,10 @@ int hsLmCut::getHMax(bucketSet& s, noDelIntSet& g) {
 		int op = m->precLessActions[iOp];
 		for (int iAdd = 0; iAdd < m->numAdds[op]; iAdd++) {
 			int f = m->addLists[op][iAdd];
-			hVal[f] = m->actionCosts[op];
-			heap->add(hVal[f], f);
+			if (costs[op] < hVal[f]) {
+				hVal[f] = costs[op];
+				heap->add(hVal[f], f);
+			}
 		}
 	}
 	while (!heap->isEmpty()) {
@@ -319,8 +328,9 @@ int hsLmCut::updateHMax(noDelIntSet& g, bucketSet* cut) {
 	for (int op = cut->getFirst(); op >= 0; op = cut->getNext()) {
 		for (int iF = 0; iF < m->numAdds[op]; iF++) {
 			int f = m->addLists[op][iF];
-			if ((hVal[maxPrec[op]] + costs[op]) < hVal[f]) { // that f might be cheaper now
-				hVal[f] = hVal[maxPrec[op]] + costs[op];
+			int newVal = ((m->numPrecs[op] == 0) ? 0 : hVal[maxPrec[op]]) + costs[op];
+			if (newVal < hVal[f]) { // that f might be cheaper now
+				hVal[f] = newVal;
 				heap->add(hVal[f], f);
 			}
 		}
-- 
2.43.0


From aaf0a33622344cbc7421a9dbb0032b11e2c7de83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:36 +0000
Subject: [PATCH 81/97] fix: an action that deletes a fact it adds was never
 executable for the SAT planner

---
 src/Model.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Model.cpp b/src/Model.cpp
index 2a3f34a..7727446 100644
--- a/src/Model.cpp
+++ b/src/Model.cpp
@@ -1650,6 +1650,10 @@ newlyReachedMLMs = new noDelIntSet();
 			std::tuple<int *, int *, int **> dels = readConditionalIntList(line, numDels[i], numConditionalDels[i],
 					numConditionalDelsConditions[i]);
 			delLists[i] = get<0>(dels);
+			// add effects take precedence, i.e. a fact that is both deleted and added is not deleted
+			numDels[i] = remove_if(delLists[i], delLists[i] + numDels[i], [&](int fact) {
+				return find(addLists[i], addLists[i] + numAdds[i], fact) != addLists[i] + numAdds[i];
+			}) - delLists[i];
 			conditionalDelLists[i] = get<1>(dels);
 			conditionalDelListsCondition[i] = get<2>(dels);
 
-- 
2.43.0


From 7ea08eb75b4452b20bab90bc572522c20b7c4ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:15 +0000
Subject: [PATCH 82/97] fix: symbolic variables without auxiliary copies read
 past the end of an empty vector

---
 src/symbolic_search/sym_variables.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/symbolic_search/sym_variables.cpp b/src/symbolic_search/sym_variables.cpp
index 5cc93be..5fa4575 100644
--- a/src/symbolic_search/sym_variables.cpp
+++ b/src/symbolic_search/sym_variables.cpp
@@ -136,8 +136,10 @@ void SymVariables::init(const vector<int> &v_order, bool aux_variables) {
     for (int bdd_var : vars_index_eff(var)) {
       swapVarsEff.push_back(bddVar(bdd_var));
     }
-    for (int bdd_var : vars_index_aux(var)) {
-      swapVarsAux.push_back(bddVar(bdd_var));
+    if (aux_variables) {
+      for (int bdd_var : vars_index_aux(var)) {
+        swapVarsAux.push_back(bddVar(bdd_var));
+      }
     }
   }
 
@@ -148,7 +150,9 @@ void SymVariables::init(const vector<int> &v_order, bool aux_variables) {
   for (size_t i = 0; i < swapVarsPre.size(); ++i) {
     existsVarsPre *= swapVarsPre[i];
     existsVarsEff *= swapVarsEff[i];
-    existsVarsAux *= swapVarsAux[i];
+    if (aux_variables) {
+      existsVarsAux *= swapVarsAux[i];
+    }
   }
 
   cout << "Symbolic Variables... Done." << endl;
-- 
2.43.0


From 0b57db8679d275fbd3f8f641fe5f59d82a3e9e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:54 +0000
Subject: [PATCH 83/97] fix: truncated, empty or unreadable problem files made
 the reader loop forever or crash

---
 src/Model.cpp | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/Model.cpp b/src/Model.cpp
index 7727446..446b4dd 100644
--- a/src/Model.cpp
+++ b/src/Model.cpp
@@ -1569,6 +1569,10 @@ newlyReachedMLMs = new noDelIntSet();
 			*sStream >> firstIndex[i];
 			assert(firstIndex[i] < numStateBits);
 			*sStream >> lastIndex[i];
+			if (sStream->fail()) {
+				cout << "Definition of variable #" << i << " is incomplete: " << line << endl;
+				exit(-1);
+			}
 			assert(lastIndex[i] < numStateBits);
 			*sStream >> varNames[i];
 			delete sStream;
@@ -2086,9 +2090,17 @@ newlyReachedMLMs = new noDelIntSet();
 
 	void Model::read(istream *inputStream) {
 		string line;
-		getline(*inputStream, line);
-		readClassical(*inputStream);
-		readHierarchical(*inputStream);
+		// the input must not end before everything has been read
+		try {
+			inputStream->exceptions(istream::failbit | istream::badbit);
+			getline(*inputStream, line);
+			readClassical(*inputStream);
+			readHierarchical(*inputStream);
+			inputStream->exceptions(istream::goodbit);
+		} catch (const istream::failure &) {
+			cout << "Input is not readable or ended unexpectedly" << endl;
+			exit(-1);
+		}
 		printSummary();
 		if (isHtnModel) {
 			generateMethodRepresentation();
@@ -2103,22 +2115,29 @@ newlyReachedMLMs = new noDelIntSet();
 #endif
 	}
 
+	static void readNumber(stringstream &sStream, int &x) {
+		if (!(sStream >> x)) {
+			cout << "Input contains a list of numbers that is incomplete: " << sStream.str() << endl;
+			exit(-1);
+		}
+	}
+
 	tuple<int *, int *, int **> Model::readConditionalIntList(string s, int &sizeA, int &sizeB, int *&sizeC) {
 		stringstream sStream(s);
 		vector<int> v;
 		vector<pair<vector<int>, int>> conds;
 		int x;
-		sStream >> x;
+		readNumber(sStream, x);
 		while (x >= 0) {
 			vector<int> c;
 			for (int i = 0; i < x; i++) {
 				int y;
-				sStream >> y;
+				readNumber(sStream, y);
 				c.push_back(y);
 			}
 
 			// read the actual unguarded element
-			sStream >> x;
+			readNumber(sStream, x);
 
 			if (!c.size())
 				v.push_back(x);
@@ -2126,7 +2145,7 @@ newlyReachedMLMs = new noDelIntSet();
 				conds.push_back(make_pair(c, x));
 
 			// read the beginning of the next
-			sStream >> x;
+			readNumber(sStream, x);
 		}
 		sizeA = v.size();
 		sizeB = conds.size();
@@ -2157,11 +2176,11 @@ newlyReachedMLMs = new noDelIntSet();
 		stringstream sStream(s);
 		vector<int> v;
 		int x;
-		sStream >> x;
+		readNumber(sStream, x);
 		while (x != -1) {
 			if (x < 0) x++; // convert back to -i-1 instead of -i-2
 			v.push_back(x);
-			sStream >> x;
+			readNumber(sStream, x);
 		}
 		size = v.size();
 		if (size == 0) {
-- 
2.43.0


From a1dfb347ad192b9b5867afcb43fb9e4b84877a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:54 +0000
Subject: [PATCH 84/97] fix: input without initial task and methods ran into an
 assertion

---
 src/SearchEngine.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/SearchEngine.cpp b/src/SearchEngine.cpp
index c3c3626..7693d5c 100644
--- a/src/SearchEngine.cpp
+++ b/src/SearchEngine.cpp
@@ -232,7 +232,10 @@ int main(int argc, char *argv[]) {
 	// H2-pruning needs the same vector representation as the mutexes
 	if (args_info.satmutexes_flag || string(args_info.pruning_arg) == "h2") htn->rintanenInvariants = true;
 	htn->read(inputStream);
-	assert(htn->isHtnModel);
+	if (!htn->isHtnModel) {
+		std::cerr << "The input does not contain an initial task and methods." << std::endl;
+		return 1;
+	}
 	searchNode* tnI = htn->prepareTNi(htn);
 			
 	if (inputFilename != "-") ((ifstream*) inputStream)->close();
-- 
2.43.0


From 1b4d09bf3a18da8685b85f60ff6af8af02c4a4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:54 +0000
Subject: [PATCH 85/97] fix: an unknown inner heuristic of rc2 was silently
 replaced by FF

---
 src/SearchEngine.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/SearchEngine.cpp b/src/SearchEngine.cpp
index 7693d5c..cb47b87 100644
--- a/src/SearchEngine.cpp
+++ b/src/SearchEngine.cpp
@@ -345,7 +345,10 @@ int main(int argc, char *argv[]) {
 					((hhRC2<hsAddFF>*)heuristics[i])->sasH->heuristic = sasFF;
 				} else if (subName == "filter")
 		    		heuristics[i] = new hhRC2<hsFilter>(htn, i, estimate, correctTaskCount);
-				else {
+				else if (subName != ""){
+					cout << "Inner heuristic \"" << subName << "\" of rc2 is unknown." << endl;
+					return 1;
+				} else {
 					cout << "No inner heuristic specified for RC. Using FF" << endl;
 		    		heuristics[i] = new hhRC2<hsAddFF>(htn, i, estimate, correctTaskCount);
 					((hhRC2<hsAddFF>*)heuristics[i])->sasH->heuristic = sasFF;
-- 
2.43.0


From 7df8a86d2a156481ebe9941902538006505d01c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:54 +0000
Subject: [PATCH 86/97] fix: landmarks of underivable tasks and goals were read
 from an array that was never filled

---
 src/heuristics/landmarks/lmExtraction/LmCausal.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/heuristics/landmarks/lmExtraction/LmCausal.cpp b/src/heuristics/landmarks/lmExtraction/LmCausal.cpp
index db3ce5b..e7db9cc 100644
--- a/src/heuristics/landmarks/lmExtraction/LmCausal.cpp
+++ b/src/heuristics/landmarks/lmExtraction/LmCausal.cpp
@@ -245,7 +245,7 @@ namespace progression {
             LmAoNode *n = nodes[tNode(tn->containedTasks[i])];
             if (n->containsFullSet) {
                 for (int j = 0; j < numNodes; j++)
-                    unionSet->insert(n->lms[j]);
+                    unionSet->insert(j);
             } else {
                 for (int j = 0; j < n->numLMs; j++) {
                     unionSet->insert(n->lms[j]);
@@ -257,7 +257,7 @@ namespace progression {
             LmAoNode *n = nodes[fNode(gf)];
             if (n->containsFullSet) {
                 for (int j = 0; j < numNodes; j++)
-                    unionSet->insert(n->lms[j]);
+                    unionSet->insert(j);
             } else {
                 for (int j = 0; j < n->numLMs; j++) {
                     unionSet->insert(n->lms[j]);
-- 
2.43.0


From a776e2dcd9a1e194b5a1e55d74a6196287ee2003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:24 +0000
Subject: [PATCH 87/97] fix: planning graph counted a precondition twice when
 an action without preconditions adds a fact that already holds

---
 src/heuristics/planningGraph.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/heuristics/planningGraph.cpp b/src/heuristics/planningGraph.cpp
index 7f64c75..2eddafa 100644
--- a/src/heuristics/planningGraph.cpp
+++ b/src/heuristics/planningGraph.cpp
@@ -72,8 +72,10 @@ void planningGraph::calcReachability(vector<bool>& s,
 		reachableTasksSet.insert(ac);
 		for (int iAdd = 0; iAdd < m->numAdds[ac]; iAdd++) {
 			int fAdd = m->addLists[ac][iAdd];
-			hValProp[fAdd] = m->actionCosts[ac];
-			queue->add(hValProp[fAdd], fAdd);
+			if (m->actionCosts[ac] < hValProp[fAdd]) {
+				hValProp[fAdd] = m->actionCosts[ac];
+				queue->add(hValProp[fAdd], fAdd);
+			}
 		}
 	}
 
-- 
2.43.0


From b8674085dd1a347ce7d8cd12295a1485e0463a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:53 +0000
Subject: [PATCH 88/97] fix: st tables with move-to-front freed an entry
 without unlinking it from its new place on deletion

---
 src/symbolic_search/cudd-3.0.0/st/st.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/symbolic_search/cudd-3.0.0/st/st.c b/src/symbolic_search/cudd-3.0.0/st/st.c
index 004c44c..d441693 100644
--- a/src/symbolic_search/cudd-3.0.0/st/st.c
+++ b/src/symbolic_search/cudd-3.0.0/st/st.c
@@ -199,6 +199,7 @@ struct st_generator {
 	*(last) = (ptr)->next;\
 	(ptr)->next = (table)->bins[hash_val];\
 	(table)->bins[hash_val] = (ptr);\
+	(last) = &(table)->bins[hash_val];\
     }
 
 /**
-- 
2.43.0


From 5bf96b7297457def89aaf61fe4cd223936134fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:53 +0000
Subject: [PATCH 89/97] fix: Mtr_FindGroup dereferenced NULL when the leaves
 lie behind the last group

---
 src/symbolic_search/cudd-3.0.0/mtr/mtrGroup.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/mtr/mtrGroup.c b/src/symbolic_search/cudd-3.0.0/mtr/mtrGroup.c
index 2511a5b..a44f454 100644
--- a/src/symbolic_search/cudd-3.0.0/mtr/mtrGroup.c
+++ b/src/symbolic_search/cudd-3.0.0/mtr/mtrGroup.c
@@ -413,9 +413,11 @@ Mtr_FindGroup(
     ** the group of any child entirely contains the new group, call
     ** Mtr_MakeGroup recursively.  */
     node = root->child;
-    while (low >= (unsigned int) (node->low + node->size)) {
+    while (node != NULL && low >= (unsigned int) (node->low + node->size)) {
 	node = node->younger;
     }
+    if (node == NULL)
+	return(NULL);
     if (low + size <= (unsigned int) (node->low + node->size)) {
 	/* The group is contained in the group of node. */
 	node = Mtr_FindGroup(node, low, size);
-- 
2.43.0


From 4fd041011a0a8bbddebaf8c78fbcfeb76d2eec1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:53 +0000
Subject: [PATCH 90/97] fix: Mtr_PrintGroupedOrder left out the comma between a
 group and a single last variable

---
 src/symbolic_search/cudd-3.0.0/mtr/mtrGroup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/mtr/mtrGroup.c b/src/symbolic_search/cudd-3.0.0/mtr/mtrGroup.c
index a44f454..b88b149 100644
--- a/src/symbolic_search/cudd-3.0.0/mtr/mtrGroup.c
+++ b/src/symbolic_search/cudd-3.0.0/mtr/mtrGroup.c
@@ -662,7 +662,7 @@ Mtr_PrintGroupedOrder(
         retval = Mtr_PrintGroupedOrder(child,invperm,fp);
         if (retval == 0) return(0);
         level += child->size;
-        if (level < root->low + root->size - 1) {
+        if (level < root->low + root->size) {
             retval = fprintf(fp,",");
             if (retval == EOF) return(0);
         }
-- 
2.43.0


From 43f52859ea9e2d8be519bb5b4d1b6ee3f8b8093a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:53 +0000
Subject: [PATCH 91/97] fix: Cudd_ApaPrintExponential printed no digit when
 rounding carried into a new leading digit

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddApa.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddApa.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddApa.c
index 87dca2c..4722d5c 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddApa.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddApa.c
@@ -719,6 +719,9 @@ Cudd_ApaPrintExponential(
             decimal[i] = tmp - 10;
         }
     }
+    /* Rounding up may have produced a new most significant digit. */
+    if (first > 0 && decimal[first - 1] != 0)
+        first--;
 
     /* Don't print trailing zeros. */
     while (last > first && decimal[last - 1] == 0)
-- 
2.43.0


From 2d82298e90ef9bb3554847e1b57db1c978502f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:53 +0000
Subject: [PATCH 92/97] fix: Cudd_ApaPrintDensity dropped the leading zeros of
 the fractional part

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddApa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddApa.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddApa.c
index 4722d5c..26ae524 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddApa.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddApa.c
@@ -927,7 +927,7 @@ Cudd_ApaPrintDensity(
     FREE(count);
     FREE(density);
     fractional = (unsigned int)((double)remainder / size * 1000000);
-    if (fprintf(fp,".%u\n", fractional) == EOF) {
+    if (fprintf(fp,".%06u\n", fractional) == EOF) {
 	return(0);
     }
     return(result);
-- 
2.43.0


From 53de89e5df7a166d0e61d4cba3b03bd71a519fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:59 +0000
Subject: [PATCH 93/97] fix: zero as an extended-precision number became
 2^-1023 or aborted, so minterm counts of zero and of arithmetic diagrams were
 wrong

---
 src/symbolic_search/cudd-3.0.0/epd/epd.c | 44 +++++++++++++-----------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/epd/epd.c b/src/symbolic_search/cudd-3.0.0/epd/epd.c
index 7bfa907..0d41584 100644
--- a/src/symbolic_search/cudd-3.0.0/epd/epd.c
+++ b/src/symbolic_search/cudd-3.0.0/epd/epd.c
@@ -169,7 +169,7 @@ EpdMultiply(EpDouble *epd1, double value)
     return;
   }
 
-  assert(epd1->type.bits.exponent == EPD_MAX_BIN);
+  assert(epd1->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd1));
 
   EpdConvert(value, &epd2);
   tmp = epd1->type.value * epd2.type.value;
@@ -200,8 +200,8 @@ EpdMultiply2(EpDouble *epd1, EpDouble const *epd2)
     return;
   }
 
-  assert(epd1->type.bits.exponent == EPD_MAX_BIN);
-  assert(epd2->type.bits.exponent == EPD_MAX_BIN);
+  assert(epd1->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd1));
+  assert(epd2->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd2));
 
   value = epd1->type.value * epd2->type.value;
   exponent = epd1->exponent + epd2->exponent;
@@ -258,8 +258,8 @@ EpdMultiply3(EpDouble const *epd1, EpDouble const *epd2, EpDouble *epd3)
     return;
   }
 
-  assert(epd1->type.bits.exponent == EPD_MAX_BIN);
-  assert(epd2->type.bits.exponent == EPD_MAX_BIN);
+  assert(epd1->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd1));
+  assert(epd2->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd2));
 
   epd3->type.value = epd1->type.value * epd2->type.value;
   epd3->exponent = epd1->exponent + epd2->exponent;
@@ -324,7 +324,7 @@ EpdDivide(EpDouble *epd1, double value)
     return;
   }
 
-  assert(epd1->type.bits.exponent == EPD_MAX_BIN);
+  assert(epd1->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd1));
 
   EpdConvert(value, &epd2);
   tmp = epd1->type.value / epd2.type.value;
@@ -367,8 +367,8 @@ EpdDivide2(EpDouble *epd1, EpDouble const *epd2)
     return;
   }
 
-  assert(epd1->type.bits.exponent == EPD_MAX_BIN);
-  assert(epd2->type.bits.exponent == EPD_MAX_BIN);
+  assert(epd1->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd1));
+  assert(epd2->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd2));
 
   value = epd1->type.value / epd2->type.value;
   exponent = epd1->exponent - epd2->exponent;
@@ -407,8 +407,8 @@ EpdDivide3(EpDouble const *epd1, EpDouble const *epd2, EpDouble *epd3)
     return;
   }
 
-  assert(epd1->type.bits.exponent == EPD_MAX_BIN);
-  assert(epd2->type.bits.exponent == EPD_MAX_BIN);
+  assert(epd1->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd1));
+  assert(epd2->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd2));
 
   epd3->type.value = epd1->type.value / epd2->type.value;
   epd3->exponent = epd1->exponent - epd2->exponent;
@@ -443,7 +443,7 @@ EpdAdd(EpDouble *epd1, double value)
     return;
   }
 
-  assert(epd1->type.bits.exponent == EPD_MAX_BIN);
+  assert(epd1->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd1));
 
   EpdConvert(value, &epd2);
   if (epd1->exponent > epd2.exponent) {
@@ -497,8 +497,8 @@ EpdAdd2(EpDouble *epd1, EpDouble const *epd2)
     return;
   }
 
-  assert(epd1->type.bits.exponent == EPD_MAX_BIN);
-  assert(epd2->type.bits.exponent == EPD_MAX_BIN);
+  assert(epd1->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd1));
+  assert(epd2->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd2));
 
   if (epd1->exponent > epd2->exponent) {
     diff = epd1->exponent - epd2->exponent;
@@ -555,8 +555,8 @@ EpdAdd3(EpDouble const *epd1, EpDouble const *epd2, EpDouble *epd3)
     return;
   }
 
-  assert(epd1->type.bits.exponent == EPD_MAX_BIN);
-  assert(epd2->type.bits.exponent == EPD_MAX_BIN);
+  assert(epd1->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd1));
+  assert(epd2->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd2));
 
   if (epd1->exponent > epd2->exponent) {
     diff = epd1->exponent - epd2->exponent;
@@ -611,7 +611,7 @@ EpdSubtract(EpDouble *epd1, double value)
     return;
   }
 
-  assert(epd1->type.bits.exponent == EPD_MAX_BIN);
+  assert(epd1->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd1));
 
   EpdConvert(value, &epd2);
   if (epd1->exponent > epd2.exponent) {
@@ -663,8 +663,8 @@ EpdSubtract2(EpDouble *epd1, EpDouble const *epd2)
     return;
   }
 
-  assert(epd1->type.bits.exponent == EPD_MAX_BIN);
-  assert(epd2->type.bits.exponent == EPD_MAX_BIN);
+  assert(epd1->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd1));
+  assert(epd2->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd2));
 
   if (epd1->exponent > epd2->exponent) {
     diff = epd1->exponent - epd2->exponent;
@@ -722,8 +722,8 @@ EpdSubtract3(EpDouble const *epd1, EpDouble const *epd2, EpDouble *epd3)
     return;
   }
 
-  assert(epd1->type.bits.exponent == EPD_MAX_BIN);
-  assert(epd2->type.bits.exponent == EPD_MAX_BIN);
+  assert(epd1->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd1));
+  assert(epd2->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd2));
 
   if (epd1->exponent > epd2->exponent) {
     diff = epd1->exponent - epd2->exponent;
@@ -807,6 +807,10 @@ EpdNormalize(EpDouble *epd)
     epd->exponent = 0;
     return;
   }
+  if (EpdIsZero(epd)) {
+    epd->exponent = 0;
+    return;
+  }
 
   exponent = EpdGetExponent(epd->type.value);
   if (exponent == EPD_MAX_BIN)
-- 
2.43.0


From ba8f6c99ae096cbcc18cd18510048d020412e7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:54 +0000
Subject: [PATCH 94/97] fix: the additive heuristic overflowed, and a value of
 exactly INT_MAX made reachable goals look like dead ends

---
 src/heuristics/rcHeuristics/hsAddFF.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/heuristics/rcHeuristics/hsAddFF.cpp b/src/heuristics/rcHeuristics/hsAddFF.cpp
index 06fda05..35ee706 100644
--- a/src/heuristics/rcHeuristics/hsAddFF.cpp
+++ b/src/heuristics/rcHeuristics/hsAddFF.cpp
@@ -98,7 +98,7 @@ namespace progression {
         } else {
             hType hVal = 0;
             for (int op = markedOps.getFirst(); op >= 0; op = markedOps.getNext()) {
-                hVal += m->actionCosts[op];
+                hVal = (m->actionCosts[op] < hUnreachable - 2 - hVal) ? hVal + m->actionCosts[op] : hUnreachable - 2;
             }
             return hVal;
         }
@@ -148,7 +148,7 @@ namespace progression {
                         hVal = 0;
                         for (int f = g.getFirst(); f >= 0; f = g.getNext()) {
                             assert(hValProp[f] != hUnreachable);
-                            hVal += hValProp[f];
+                            hVal = (hValProp[f] < hUnreachable - 2 - hVal) ? hVal + hValProp[f] : hUnreachable - 2;
                         }
                         break;
                     } else { // FF extraction
@@ -159,15 +159,10 @@ namespace progression {
             }
             for (int iOp = 0; iOp < m->precToActionSize[prop]; iOp++) {
                 int op = m->precToAction[prop][iOp];
-                hType newVal;
-                if (this->heuristic == sasFF) {
-                    newVal = max(hValOp[op], m->actionCosts[op] + pVal);
-                }
-                else {
-                    newVal = hValOp[op] + pVal;
-                }
+                hType base = (this->heuristic == sasFF) ? m->actionCosts[op] : hValOp[op];
 
-                if ((newVal < hValOp[op]) || (newVal < pVal)) {
+                // needs to be checked before adding up, and the result needs to stay below the value for unreachable
+                if (pVal >= hUnreachable - base) {
                     if (!this->reportedOverflow) {
                         cout << "WARNING: Integer overflow in hAdd/hFF calculation. Value has been cut." << endl;
                         cout << "         You can choose a different data type for the Add/FF calculation (look for \"hType\" in heuristic class)" << endl;
@@ -176,6 +171,10 @@ namespace progression {
                     }
                     return INT_MAX - 2; // here, the external data type for heuristic values (i.e. int) must be used
                 }
+                hType newVal = base + pVal;
+                if (this->heuristic == sasFF) {
+                    newVal = max(hValOp[op], newVal);
+                }
                 hValOp[op] = newVal;
 
                 assert(hValOp[op] >= 0);
-- 
2.43.0


From d4bc58f7b030755d63053e02673f444f01cfe4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:54 +0000
Subject: [PATCH 95/97] fix: the f value of search nodes overflowed for large
 heuristic values and weights

---
 src/search/fringes/OneQueueWAStarFringe.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/search/fringes/OneQueueWAStarFringe.cpp b/src/search/fringes/OneQueueWAStarFringe.cpp
index 8b3cc37..22363ac 100644
--- a/src/search/fringes/OneQueueWAStarFringe.cpp
+++ b/src/search/fringes/OneQueueWAStarFringe.cpp
@@ -3,6 +3,8 @@
 //
 
 #include "OneQueueWAStarFringe.h"
+#include <algorithm>
+#include <climits>
 
 
 
@@ -35,14 +37,16 @@ searchNode* OneQueueWAStarFringe::pop() {
 void OneQueueWAStarFringe::push(searchNode *n) {
 	n->hRand = rand();
 	// compute the f values for this search node
-	n->fValue = n->heuristicValue[0] * hWeight;
+	long long f = (long long) n->heuristicValue[0] * hWeight;
 
 	switch (aStarOption){
 		case gValNone:  /* nothing to do */ break;
-		case gValPathCosts: n->fValue += n->modificationDepth; break;
-		case gValActionCosts: n->fValue += n->actionCosts; break;
-		case gValActionPathCosts: n->fValue += n->mixedModificationDepth; break;
+		case gValPathCosts: f += n->modificationDepth; break;
+		case gValActionCosts: f += n->actionCosts; break;
+		case gValActionPathCosts: f += n->mixedModificationDepth; break;
 	}
+	// large heuristic values and weights must not overflow (the visited list adds one to the value)
+	n->fValue = (int) std::max(std::min(f, (long long) INT_MAX - 1), (long long) INT_MIN);
 	
 	fringe.push(n);
 }
-- 
2.43.0


From 7c0fdac7651d30bcb444212662aa650d467ba86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:54 +0000
Subject: [PATCH 96/97] fix: task count correction and minimal implied costs
 overflowed for large values

---
 src/Model.cpp                       | 5 +++--
 src/heuristics/rcHeuristics/hhRC2.h | 8 +++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/Model.cpp b/src/Model.cpp
index 446b4dd..cdb6551 100644
--- a/src/Model.cpp
+++ b/src/Model.cpp
@@ -2750,8 +2750,9 @@ newlyReachedMLMs = new noDelIntSet();
 				minImpliedDistanceM[n->id] = 1; // a distance of one is implied by the decomposition itself
 				for (int i = 0; i < this->numSubTasks[n->id]; i++) {
 					int st = this->subTasks[n->id][i];
-                    minEstimatedCostsM[n->id] += minEstimatedCosts[st];
-					minImpliedDistanceM[n->id] += minImpliedDistance[st];
+					// both may be exponential in the number of tasks
+                    minEstimatedCostsM[n->id] = (int) min((long long) minEstimatedCostsM[n->id] + minEstimatedCosts[st], (long long) INT_MAX);
+					minImpliedDistanceM[n->id] = (int) min((long long) minImpliedDistanceM[n->id] + minImpliedDistance[st], (long long) INT_MAX);
 				}
 				bool changed = ((minEstimatedCostsM[n->id] != cCosts)
 						|| (minImpliedDistanceM[n->id] != cDist));
diff --git a/src/heuristics/rcHeuristics/hhRC2.h b/src/heuristics/rcHeuristics/hhRC2.h
index ed1724a..dca2204 100644
--- a/src/heuristics/rcHeuristics/hhRC2.h
+++ b/src/heuristics/rcHeuristics/hhRC2.h
@@ -226,6 +226,7 @@ public:
 
         if (correctTaskCount) {
             if (hval != UNREACHABLE) {
+                long long corrected = hval;
                 for (int i = 0; i < n->numContainedTasks; i++) {
                     if (n->containedTaskCount[i] > 1) {
                         int task = n->containedTasks[i];
@@ -233,15 +234,16 @@ public:
                         assert(task < htn->numTasks);
                         if (useAdmissibleCostEstimate) {
                             if (task < htn->numActions) {
-                                hval += (htn->actionCosts[task] * (count - 1));
+                                corrected += ((long long) htn->actionCosts[task] * (count - 1));
                             }
                         } else if (estimate == estDISTANCE) {
-                            hval += (htn->minImpliedDistance[task] * (count - 1));
+                            corrected += ((long long) htn->minImpliedDistance[task] * (count - 1));
                         } else if (estimate == estCOSTS) {
-                            hval += (htn->minEstimatedCosts[task] * (count - 1));
+                            corrected += ((long long) htn->minEstimatedCosts[task] * (count - 1));
                         }
                     }
                 }
+                hval = (int) min(corrected, (long long) UNREACHABLE - 1); // must neither overflow nor look like a dead end
             }
         }
         return hval;
-- 
2.43.0


From 77ba4e4aedf0eea3c37dfc3713a289fda6f78bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:22 +0000
Subject: [PATCH 97/97] fix: invariant resolution iterated over sets while
 inserting into them

---
 src/Invariants.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Invariants.cpp b/src/Invariants.cpp
index f5937a7..b0b0406 100644
--- a/src/Invariants.cpp
+++ b/src/Invariants.cpp
@@ -119,7 +119,8 @@ void extract_invariants_from_parsed_model(Model * htn){
 			int invB = -inv.second - 1;
 
 			// first variable, look for invariants containing the contrary fact
-			for (const int & j : binary_invariants[invA + htn->numStateBits]){
+			const unordered_set<int> clausesA = binary_invariants[invA + htn->numStateBits]; // new invariants may be inserted into this set
+			for (const int & j : clausesA){
 				if (-j-1 == inv.second) continue; // trivial invariant
 				// the new invariant is inv.second,j
 				if (!binary_invariants[inv.second + htn->numStateBits].count(j)){
@@ -130,7 +131,8 @@ void extract_invariants_from_parsed_model(Model * htn){
 			}
 
 			// second variable, look for invariants containing the contrary fact
-			for (const int & j : binary_invariants[invB + htn->numStateBits]){
+			const unordered_set<int> clausesB = binary_invariants[invB + htn->numStateBits]; // new invariants may be inserted into this set
+			for (const int & j : clausesB){
 				if (-j-1 == inv.first) continue; // trivial invariant
 				// the new invariant is inv.first,j
 				if (!binary_invariants[inv.first + htn->numStateBits].count(j)){
-- 
2.43.0

