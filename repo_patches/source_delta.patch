From a0f21c315e472f36f7581c9d1a1e9107392533cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 01/46] fix: keep deadlock states apart from ordinary states
 when extracting counterstrategies

Without output variables, the input valuation of a deadlock state is the same
BDD as the one of an ordinary state, so that the deadlock was sometimes printed
as a transition to an ordinary state.
---
 src/extensionExtractExplicitCounterstrategy.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/extensionExtractExplicitCounterstrategy.hpp b/src/extensionExtractExplicitCounterstrategy.hpp
index 30163b5..1569020 100644
--- a/src/extensionExtractExplicitCounterstrategy.hpp
+++ b/src/extensionExtractExplicitCounterstrategy.hpp
@@ -94,6 +94,9 @@ void computeAndPrintExplicitStateStrategy(std::ostream &outputStream) {
     // maps from a BF node pointer (for the pre variable valuation) and a goal
     // to a state number. The vector then contains the concrete valuation.
     std::map<std::pair<size_t, std::pair<unsigned int, unsigned int> >, unsigned int > lookupTableForPastStates;
+    // Deadlock states are only described by an input valuation. They have their own table
+    // as in the absence of output variables, they must not be mixed up with ordinary states.
+    std::map<std::pair<size_t, std::pair<unsigned int, unsigned int> >, unsigned int > lookupTableForDeadlockStates;
     std::vector<BF> bfsUsedInTheLookupTable;
     std::list<std::pair<size_t, std::pair<unsigned int, unsigned int> > > todoList;
 
@@ -169,7 +172,7 @@ void computeAndPrintExplicitStateStrategy(std::ostream &outputStream) {
         // Can we enforce a deadlock?
         BF deadlockInput = (currentPossibilities & safetyEnv & !safetySys).UnivAbstract(varCubePostOutput);
         if (deadlockInput!=mgr.constantFalse()) {
-            addDeadlocked(deadlockInput, current, bfsUsedInTheLookupTable,  lookupTableForPastStates, outputStream);
+            addDeadlocked(deadlockInput, current, bfsUsedInTheLookupTable,  lookupTableForDeadlockStates, outputStream);
         } else {
 
             // No deadlock in sight -> Do a normal transition
@@ -236,7 +239,7 @@ void computeAndPrintExplicitStateStrategy(std::ostream &outputStream) {
     //The outputvalues are omitted (indeed, no valuation exists that satisfies the system safeties)
     //Format compatible with JTLV counterstrategy
 
-    void addDeadlocked(BF targetPositionCandidateSet, std::pair<size_t, std::pair<unsigned int, unsigned int> > current, std::vector<BF> &bfsUsedInTheLookupTable, std::map<std::pair<size_t, std::pair<unsigned int, unsigned int> >, unsigned int > &lookupTableForPastStates, std::ostream &outputStream) {
+    void addDeadlocked(BF targetPositionCandidateSet, std::pair<size_t, std::pair<unsigned int, unsigned int> > current, std::vector<BF> &bfsUsedInTheLookupTable, std::map<std::pair<size_t, std::pair<unsigned int, unsigned int> >, unsigned int > &lookupTableForDeadlockStates, std::ostream &outputStream) {
     
     BF newCombination = determinize(targetPositionCandidateSet, postVars) ;
     
@@ -245,8 +248,8 @@ void computeAndPrintExplicitStateStrategy(std::ostream &outputStream) {
     std::pair<size_t, std::pair<unsigned int, unsigned int> > target = std::pair<size_t, std::pair<unsigned int, unsigned int> >(newCombination.getHashCode(),std::pair<unsigned int, unsigned int>(current.second.first, current.second.second));
     unsigned int tn;
     
-    if (lookupTableForPastStates.count(target)==0) {
-        tn = lookupTableForPastStates[target] = bfsUsedInTheLookupTable.size();
+    if (lookupTableForDeadlockStates.count(target)==0) {
+        tn = lookupTableForDeadlockStates[target] = bfsUsedInTheLookupTable.size();
         bfsUsedInTheLookupTable.push_back(newCombination);   
         outputStream << tn << "\n";
         
@@ -268,7 +271,7 @@ void computeAndPrintExplicitStateStrategy(std::ostream &outputStream) {
         outputStream << ">\n\tWith no successors.";
     
     } else {
-        tn = lookupTableForPastStates[target];
+        tn = lookupTableForDeadlockStates[target];
         outputStream << tn;
     }
     
-- 
2.43.0


From 36ed75741f8372120cd3231e9377bc0c8a0e6128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 02/46] fix: switch to an earlier-layer guarantee when
 extracting counterstrategies

Cyclically advancing the index of the prevented guarantee could lead to
counterstrategies in which all guarantees are satisfied infinitely often.
---
 ...xtensionExtractExplicitCounterstrategy.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/extensionExtractExplicitCounterstrategy.hpp b/src/extensionExtractExplicitCounterstrategy.hpp
index 1569020..7061c04 100644
--- a/src/extensionExtractExplicitCounterstrategy.hpp
+++ b/src/extensionExtractExplicitCounterstrategy.hpp
@@ -194,11 +194,7 @@ void computeAndPrintExplicitStateStrategy(std::ostream &outputStream) {
                     firstTry = false;
                 }
                 unsigned int nextLivenessGuarantee = current.second.second;
-                firstTry = true;
-                while (((nextLivenessGuarantee != current.second.second) | firstTry) && !((livenessGuarantees[nextLivenessGuarantee] & newCombination).isFalse())) {
-                    nextLivenessGuarantee  = (nextLivenessGuarantee + 1) % livenessGuarantees.size();
-                    firstTry = false;
-                }
+                bool guaranteeReached = !((livenessGuarantees[nextLivenessGuarantee] & newCombination).isFalse());
 
                 //Mark which input has been captured by this case. Use the same input for other successors
                 remainingTransitions &= !newCombination;
@@ -206,6 +202,19 @@ void computeAndPrintExplicitStateStrategy(std::ostream &outputStream) {
                 // We don't need the pre information from the point onwards anymore.
                 newCombination = newCombination.ExistAbstract(varCubePre).SwapVariables(varVectorPre,varVectorPost);
 
+                // If the guarantee that the environment currently tries to prevent has been reached, then the
+                // successor is winning by an earlier iteration of the outermost fixed point. Prevent a guarantee
+                // next for which the successor has been found to be winning first, so that this can only happen
+                // finitely often.
+                if (guaranteeReached) {
+                    for (auto it = strategyDumpingData.begin();it!=strategyDumpingData.end();it++) {
+                        if ((boost::get<0>(*it) == nextLivenessAssumption) && !((boost::get<2>(*it) & newCombination).isFalse())) {
+                            nextLivenessGuarantee = boost::get<1>(*it);
+                            break;
+                        }
+                    }
+                }
+
                 unsigned int tn;
 
                 std::pair<size_t, std::pair<unsigned int, unsigned int> > target;
-- 
2.43.0


From 0dcf5ae087ec9da0666c8d3c6b8b4e11dc06af64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:28 +0000
Subject: [PATCH 03/46] fix: reject memory buffers without elements and recalls
 of elements not yet stored

Both used to crash the parser or to yield an undefined BDD.
---
 src/extensionNondeterministicMotion.hpp | 10 ++++++++--
 src/synthesisContextBasics.cpp          | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/extensionNondeterministicMotion.hpp b/src/extensionNondeterministicMotion.hpp
index 1e4cb03..80c6fac 100644
--- a/src/extensionNondeterministicMotion.hpp
+++ b/src/extensionNondeterministicMotion.hpp
@@ -75,9 +75,15 @@ public:
                 e << "Error reading line " << lineNumberCurrentlyRead << ". Expected number of memory elements.";
                 throw e;
             }
-            std::vector<BF> memoryNew(nofElements);
+            if (nofElements==0) {
+                SlugsException e(false);
+                e << "Error reading line " << lineNumberCurrentlyRead << ". A memory buffer needs to have at least one element.";
+                throw e;
+            }
+            std::vector<BF> memoryNew;
             for (unsigned int i=0;i<nofElements;i++) {
-                memoryNew[i] = parseBooleanFormulaRecurseEx(is,allowedTypes,memoryNew,readBDDs);
+                BF nextElement = parseBooleanFormulaRecurseEx(is,allowedTypes,memoryNew,readBDDs);
+                memoryNew.push_back(nextElement);
             }
             return memoryNew[nofElements-1];
         }
diff --git a/src/synthesisContextBasics.cpp b/src/synthesisContextBasics.cpp
index d14ada0..f1be2a9 100644
--- a/src/synthesisContextBasics.cpp
+++ b/src/synthesisContextBasics.cpp
@@ -43,9 +43,15 @@ BF GR1Context::parseBooleanFormulaRecurse(std::istringstream &is,std::set<Variab
             e << "Error reading line " << lineNumberCurrentlyRead << ". Expected number of memory elements.";
             throw e;
         }
-        std::vector<BF> memoryNew(nofElements);
+        if (nofElements==0) {
+            SlugsException e(false);
+            e << "Error reading line " << lineNumberCurrentlyRead << ". A memory buffer needs to have at least one element.";
+            throw e;
+        }
+        std::vector<BF> memoryNew;
         for (unsigned int i=0;i<nofElements;i++) {
-            memoryNew[i] = parseBooleanFormulaRecurse(is,allowedTypes,memoryNew);
+            BF nextElement = parseBooleanFormulaRecurse(is,allowedTypes,memoryNew);
+            memoryNew.push_back(nextElement);
         }
         return memoryNew[nofElements-1];
     }
-- 
2.43.0


From 0039dcb6786ef5b98b0e84e0386515ff1a2a63b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:04 +0000
Subject: [PATCH 04/46] fix: read the counterstrategy output file name after
 the specification file name

The first file name was used as the name of the output file and the second one
as the specification, so that the specification could be overwritten.
---
 src/extensionExtractExplicitCounterstrategy.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/extensionExtractExplicitCounterstrategy.hpp b/src/extensionExtractExplicitCounterstrategy.hpp
index 7061c04..e98d6aa 100644
--- a/src/extensionExtractExplicitCounterstrategy.hpp
+++ b/src/extensionExtractExplicitCounterstrategy.hpp
@@ -41,8 +41,11 @@ protected:
     using T::postOutputVars;
     using T::doesVariableInheritType;
 
-    XExtractExplicitCounterStrategy<T>(std::list<std::string> &filenames) : T(filenames) {
-        if (filenames.size()==1) {
+    XExtractExplicitCounterStrategy<T>(std::list<std::string> &filenames) : T(filenames) {}
+
+    void init(std::list<std::string> &filenames) {
+        T::init(filenames);
+        if (filenames.size()==0) {
             outputFilename = "";
         } else {
             outputFilename = filenames.front();
-- 
2.43.0


From 578b100948ccb2de195d55be6d138c210a1ae68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:30 +0000
Subject: [PATCH 05/46] fix: interactive shell indexed the environment's
 strategies by guarantees

For unrealizable specifications there is one strategy per liveness
assumption; CHECKTRANS and MOVE read past the end of the list when there
were more guarantees than assumptions.
---
 src/extensionInteractiveStrategy.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index 9c56b3a..00e9edb 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -260,7 +260,7 @@ public:
                 // Analyse if it is part of a possible strategy
                 std::cout << "- The transition is a possible transition in a strategy for the following goals: ";
                 foundOne = false;
-                for (unsigned int i=0;i<livenessGuarantees.size();i++) {
+                for (unsigned int i=0;i<positionalStrategiesForTheIndividualGoals.size();i++) {
                     if (!(positionalStrategiesForTheIndividualGoals[i] & from & to).isFalse()) {
                         if (foundOne) std::cout << ", ";
                         foundOne = true;
@@ -307,7 +307,7 @@ public:
                     std::cin >> guarantee;
                     if (std::cin.fail()) {
                         std::cout << "    -> Error reading value. Aborting \n";
-                    } else if (guarantee>=livenessGuarantees.size()) {
+                    } else if (guarantee>=positionalStrategiesForTheIndividualGoals.size()) {
                         std::cout << "    -> Number too large. Aborting \n";
                     } else {
 
@@ -399,7 +399,7 @@ public:
                                 // Analyse if it is part of a possible strategy
                                 std::cout << "- The transition is a possible transition in a strategy for the following goals: ";
                                 foundOne = false;
-                                for (unsigned int i=0;i<livenessGuarantees.size();i++) {
+                                for (unsigned int i=0;i<positionalStrategiesForTheIndividualGoals.size();i++) {
                                     if (!(positionalStrategiesForTheIndividualGoals[i] & transition).isFalse()) {
                                         if (foundOne) std::cout << ", ";
                                         foundOne = true;
-- 
2.43.0


From 59d7332ea230f3ebf89df16eb3500ea9457d955b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:30 +0000
Subject: [PATCH 06/46] fix: XMAKETRANS invented a position where the strategy
 has no move

When the position is not winning, the strategy offers no answer to a legal
input. The shell then moved to the empty set of positions and printed it as
the all-zero position; it now reports ERROR and stays where it is.
---
 src/extensionInteractiveStrategy.hpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index 00e9edb..27791c8 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -437,13 +437,10 @@ public:
                         }
                     }
                 }
-                BF trans = currentPosition & postInput & safetyEnv;
+                BF trans = currentPosition & postInput & safetyEnv & positionalStrategiesForTheIndividualGoals[currentLivenessGuarantee];
                 if (trans.isFalse()) {
                     std::cout << "ERROR\n";
-                    if (currentPosition.isFalse()) {
-                    }
                 } else {
-                    trans &= positionalStrategiesForTheIndividualGoals[currentLivenessGuarantee];
 
                     // Switching goals
                     BF newCombination = determinize(trans,postVars);
@@ -498,13 +495,10 @@ public:
                         }
                     }
                 }
-                BF trans = currentPosition & postInput & safetyEnv;
+                BF trans = currentPosition & postInput & safetyEnv & positionalStrategiesForTheIndividualGoals[currentLivenessGuarantee];
                 if (trans.isFalse()) {
                     std::cout << "ERROR\n";
-                    if (currentPosition.isFalse()) {
-                    }
                 } else {
-                    trans &= positionalStrategiesForTheIndividualGoals[currentLivenessGuarantee];
 
                     // Switching goals
                     BF newCombination = determinizeRandomized(trans,postVars);
-- 
2.43.0


From 0e217ae64f211ad2e9543525d3e252887889de7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:30 +0000
Subject: [PATCH 07/46] fix: XMAKETRANSRANDOM must be refused for unrealizable
 specifications

Like XMAKETRANS; it read past the end of the list of strategies.
---
 src/extensionInteractiveStrategy.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index 27791c8..ea7db2e 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -481,6 +481,7 @@ public:
                 std::cout.flush();
             } else if (command=="XMAKETRANSRANDOM") {
                 std::cout << "\n"; // Get rid of the prompt
+                if (!realizable) throw "Error: XMAKETRANSRANDOM is only supported for realizable specifications";
                 BF postInput = mgr.constantTrue();
                 for (unsigned int i=0;i<variables.size();i++) {
                     if (doesVariableInheritType(i,PostInput)) {
-- 
2.43.0


From 30cebb6ea9c321488df7eb88b46f0460f452166b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:33 +0000
Subject: [PATCH 08/46] fix: MOVE forgot inputs given as numbers other than 0
 and 1

They are taken as 1 for choosing the move, but the position reached was left
without a value for them.
---
 src/extensionInteractiveStrategy.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index ea7db2e..05ef27b 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -339,6 +339,7 @@ public:
                                     } else {
                                         std::cout << "    -> Value != 0 or 1. Assuming 1.\n";
                                         to &= variables[i];
+                                        nextPosition &= variables[i];
                                     }
                                 }
                             }
-- 
2.43.0


From 46f12de7a2961d195f7e5fb2e511445a5728ece5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:33 +0000
Subject: [PATCH 09/46] fix: XGETINIT reported goal 0 but kept pursuing the old
 goal

---
 src/extensionInteractiveStrategy.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index 05ef27b..34cc7b8 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -580,6 +580,7 @@ public:
                 }
                 std::cout << ",0" << std::endl; // Flushes, too.
                 currentPosition = initialPosition;
+                currentLivenessGuarantee = 0;
             } else if (command=="XCOMPLETEINIT") {
 
                 // This command takes a set of forced values and completes it such that
-- 
2.43.0


From 9fece42bc0a3275b387b78c69bac7e9f111b0920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:33 +0000
Subject: [PATCH 10/46] fix: XSTRATEGYTRANSITION never counted a goal that
 holds on one transition only

The comparison was for strict inclusion, so a liveness property that is
satisfied by exactly the transition chosen was not recognised, and the
strategy stayed with that goal forever.
---
 src/extensionInteractiveStrategy.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index 34cc7b8..cbda5e1 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -1049,8 +1049,8 @@ public:
                             std::cout << std::endl;
 
                             // Print new assumption and guarantee goal counters
-                            if (allSoFar < livenessAssumptions[livenessAssumption]) livenessAssumption++;
-                            if (allSoFar < livenessGuarantees[livenessGuarantee]) livenessGuarantee++;
+                            if (allSoFar <= livenessAssumptions[livenessAssumption]) livenessAssumption++;
+                            if (allSoFar <= livenessGuarantees[livenessGuarantee]) livenessGuarantee++;
                             std::cout << livenessAssumption % livenessAssumptions.size() << std::endl;
                             std::cout << livenessGuarantee % livenessGuarantees.size() << std::endl;
 
-- 
2.43.0


From 78eaf88eccf60c1ff5a29d209ec1cbe119a3b76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:35 +0000
Subject: [PATCH 11/46] fix: count of losing initial inputs was NaN when limits
 mention outputs

The set was counted over the input variables although the variable limits
(or the reachable positions) depend on output variables.
---
 src/extensionAnalyzeInitialPositions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionAnalyzeInitialPositions.hpp b/src/extensionAnalyzeInitialPositions.hpp
index fe0cad2..53f3216 100644
--- a/src/extensionAnalyzeInitialPositions.hpp
+++ b/src/extensionAnalyzeInitialPositions.hpp
@@ -210,7 +210,7 @@ public:
         double nofWPosAG = (initEnv & initSys & winningPositions & variableLimits).getNofSatisfyingAssignments(varCubePre);
 
         double nofInputs = variableLimits.ExistAbstract(varCubePreOutput).getNofSatisfyingAssignments(varCubePreInput);
-        double nofInputsSystemLosing = (initEnv & variableLimits & !((winningPositions & initSys).ExistAbstract(varCubePreOutput))).getNofSatisfyingAssignments(varCubePreInput);
+        double nofInputsSystemLosing = (initEnv & variableLimits.ExistAbstract(varCubePreOutput) & !((winningPositions & initSys).ExistAbstract(varCubePreOutput))).getNofSatisfyingAssignments(varCubePreInput);
         double nofAllowedInitialInputs = (initEnv & variableLimits.ExistAbstract(varCubePreOutput)).getNofSatisfyingAssignments(varCubePreInput);
 
         std::cout << "Number of winning positions: " << nofWPos << " out of " << nofPos << std::endl;
-- 
2.43.0


From cce3d74f00f9c3d131c70807297124445aa34c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:35 +0000
Subject: [PATCH 12/46] fix: initial position analysis crashed on variable
 groups without master variable

---
 src/extensionAnalyzeInitialPositions.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/extensionAnalyzeInitialPositions.hpp b/src/extensionAnalyzeInitialPositions.hpp
index 53f3216..b30be78 100644
--- a/src/extensionAnalyzeInitialPositions.hpp
+++ b/src/extensionAnalyzeInitialPositions.hpp
@@ -116,6 +116,10 @@ protected:
             }
         }
 
+        for (auto it = variableGroups.begin();it!=variableGroups.end();it++) {
+            if (it->second.masterVariable==(unsigned int)-1) throw std::string("Error: there is no master variable for the variable group ")+it->first;
+        }
+
         // Now enumerate cubes. Due to the fact that different binary
         // cubes could have a/the same interpretation with grouped variables,
         // we store lines already given to the user in order to prevent
-- 
2.43.0


From 3a42a51f4e67ffa6ab0025e4cdc3299eda4b88f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:51 +0000
Subject: [PATCH 13/46] fix: --analyzeAssumptions: keep the safety assumptions
 when analyzing a liveness assumption

---
 src/extensionAnalyzeAssumptions.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/extensionAnalyzeAssumptions.hpp b/src/extensionAnalyzeAssumptions.hpp
index f9941e9..60ad5f6 100644
--- a/src/extensionAnalyzeAssumptions.hpp
+++ b/src/extensionAnalyzeAssumptions.hpp
@@ -376,7 +376,6 @@ protected:
 
             //if (i==1) throw "Aaargh!";
 
-            safetyEnv = mgr.constantTrue();
             livenessAssumptions.clear();
             for (unsigned int j=0;j<oldLivenessAssumptions.size();j++) {
                 if (i!=j) livenessAssumptions.push_back(oldLivenessAssumptions[j]);
-- 
2.43.0


From 6cc12f566f70032badbc996264f1c3581557f7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:51 +0000
Subject: [PATCH 14/46] fix: --analyzeAssumptions: without its only liveness
 assumption, a specification has the assumption TRUE

---
 src/extensionAnalyzeAssumptions.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/extensionAnalyzeAssumptions.hpp b/src/extensionAnalyzeAssumptions.hpp
index 60ad5f6..f4a3605 100644
--- a/src/extensionAnalyzeAssumptions.hpp
+++ b/src/extensionAnalyzeAssumptions.hpp
@@ -380,6 +380,7 @@ protected:
             for (unsigned int j=0;j<oldLivenessAssumptions.size();j++) {
                 if (i!=j) livenessAssumptions.push_back(oldLivenessAssumptions[j]);
             }
+            if (livenessAssumptions.size()==0) livenessAssumptions.push_back(mgr.constantTrue());
             std::cout << "\"" << livenessEnvPartNames.at(i) << "\" ";
 
             std::vector<std::vector<BF> > newDistances;
-- 
2.43.0


From 06a05edb189783e842d855c8a95f7f34d3c1d6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:06 +0000
Subject: [PATCH 15/46] fix: --computeWeakenedSafetyAssumptions: compare a
 clause with the clauses still to come, not with itself

---
 src/extensionWeakenSafetyAssumptions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensionWeakenSafetyAssumptions.hpp b/src/extensionWeakenSafetyAssumptions.hpp
index 95783e4..9ce242d 100644
--- a/src/extensionWeakenSafetyAssumptions.hpp
+++ b/src/extensionWeakenSafetyAssumptions.hpp
@@ -117,9 +117,9 @@ public:
             for (auto it = clausesFoundSoFarInt.begin();it!=clausesFoundSoFarInt.end();it++) {
                 BF thisClauseBF = mgr.constantFalse();
                 for (unsigned int i=0;i<variables.size();i++) {
-                    if (thisClause[i]>0) {
+                    if ((*it)[i]>0) {
                         thisClauseBF |= variables[i];
-                    } else if (thisClause[i]<0) {
+                    } else if ((*it)[i]<0) {
                         thisClauseBF |= !variables[i];
                     }
                 }
-- 
2.43.0


From 5e17d5e660ffbd000a844bf69aadf932c2aeb73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:37 +0000
Subject: [PATCH 16/46] fix: --computeWeakenedSafetyAssumptions: do not commit
 to literals that a clause does not have

---
 src/extensionWeakenSafetyAssumptions.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/extensionWeakenSafetyAssumptions.hpp b/src/extensionWeakenSafetyAssumptions.hpp
index 9ce242d..379c199 100644
--- a/src/extensionWeakenSafetyAssumptions.hpp
+++ b/src/extensionWeakenSafetyAssumptions.hpp
@@ -130,6 +130,13 @@ public:
             std::vector<int> filteredLiterals;
             BF committedLiterals = mgr.constantFalse();
             for (unsigned int i=0;i<variables.size();i++) {
+
+                // Variables that do not occur in the clause have no literal to be removed
+                if (thisClause[i]==0) {
+                    filteredLiterals.push_back(0);
+                    continue;
+                }
+
                 BF restOfClause = committedLiterals;
                 for (unsigned int j=i+1;j<variables.size();j++) {
                     if (thisClause[j]>0) {
-- 
2.43.0


From 8f71563774c09931e554f95dc22869c979632f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:23 +0000
Subject: [PATCH 17/46] fix: --computeWeakenedSafetyAssumptions: drop clauses
 that became unnecessary when literals were removed

---
 src/extensionWeakenSafetyAssumptions.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/extensionWeakenSafetyAssumptions.hpp b/src/extensionWeakenSafetyAssumptions.hpp
index 379c199..e29084d 100644
--- a/src/extensionWeakenSafetyAssumptions.hpp
+++ b/src/extensionWeakenSafetyAssumptions.hpp
@@ -165,6 +165,26 @@ public:
             clausesFoundSoFarIntAfterFiltering.insert(filteredLiterals);
         }
 
+        // With fewer literals, a clause may make another one unnecessary
+        for (auto it = clausesFoundSoFarIntAfterFiltering.begin();it!=clausesFoundSoFarIntAfterFiltering.end();) {
+            safetyEnv = mgr.constantTrue();
+            for (auto it2 = clausesFoundSoFarIntAfterFiltering.begin();it2!=clausesFoundSoFarIntAfterFiltering.end();it2++) {
+                if (it2!=it) {
+                    BF otherClause = mgr.constantFalse();
+                    for (unsigned int i=0;i<variables.size();i++) {
+                        if ((*it2)[i]>0) otherClause |= variables[i];
+                        if ((*it2)[i]<0) otherClause |= !variables[i];
+                    }
+                    safetyEnv &= otherClause;
+                }
+            }
+            checkRealizability();
+            if (realizable) {
+                clausesFoundSoFarIntAfterFiltering.erase(it++);
+            } else {
+                it++;
+            }
+        }
 
         // Print the final set of clauses to stdout
         std::cout << "# Simplified safety assumption CNF clauses:\n";
-- 
2.43.0


From 9f08c73f6c1d153a3c4870a3deb9f71d8963f6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:57 +0000
Subject: [PATCH 18/46] fix: --analyzeInterleaving: initialize the flag that
 tells whether some output was found

---
 src/extensionInterleave.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionInterleave.hpp b/src/extensionInterleave.hpp
index 004d9e4..0d44964 100644
--- a/src/extensionInterleave.hpp
+++ b/src/extensionInterleave.hpp
@@ -190,7 +190,7 @@ public:
             std::cout << "Starting point is a realizable specification.\n\n";
 
             // Try to "pre" Some variables
-            bool foundOne;
+            bool foundOne = false;
             for (unsigned int i=0;i<variables.size();i++) {
                 if (doesVariableInheritType(i,PreOutput)) {
                     variableTypes[i] = PreOutputBefore;
-- 
2.43.0


From 57823e4f8d75b3c7ea3055a4421b583a29696dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:58 +0000
Subject: [PATCH 19/46] fix: --analyzeInterleaving: the output that was tested
 last was always listed

---
 src/extensionInterleave.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/extensionInterleave.hpp b/src/extensionInterleave.hpp
index 0d44964..7583099 100644
--- a/src/extensionInterleave.hpp
+++ b/src/extensionInterleave.hpp
@@ -201,6 +201,7 @@ public:
                     if (!realizable) {
                         variableTypes[i] = PreOutputAfter;
                         variableTypes[i+1] = PostOutputAfter;
+                        computeVariableInformation();
                     } else {
                         foundOne = true;
                     }
-- 
2.43.0


From 3d5ff02d093665abb27696f203895bca8b4aac22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:05 +0000
Subject: [PATCH 20/46] fix: --analyzeSafetyLivenessInteraction: initially, no
 safety guarantee has failed yet

---
 src/extensionAnalyzeSafetyLivenessInteraction.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionAnalyzeSafetyLivenessInteraction.hpp b/src/extensionAnalyzeSafetyLivenessInteraction.hpp
index e7d0693..51843a6 100644
--- a/src/extensionAnalyzeSafetyLivenessInteraction.hpp
+++ b/src/extensionAnalyzeSafetyLivenessInteraction.hpp
@@ -118,7 +118,7 @@ protected:
             computeWinningPositions();
 
             bool isWinningTraditionalSemantics = initEnv.Implies((winningPositions & initSys).ExistAbstract(varCubePreOutput)).UnivAbstract(varCubePreInput).isTrue();
-            bool isWinningRoboticsSemantics = (initEnv & initSys).Implies(winningPositions).UnivAbstract(varCubePreOutput).UnivAbstract(varCubePreInput).isTrue();
+            bool isWinningRoboticsSemantics = (initEnv & initSys & !variables[varGuaFailPre]).Implies(winningPositions).UnivAbstract(varCubePreOutput).UnivAbstract(varCubePreInput).isTrue();
 
 
             std::cout << "With a non-strict implication,\n";
-- 
2.43.0


From b9fae0b6ad7b602106ca262951a133bc62f8c51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:05 +0000
Subject: [PATCH 21/46] fix: --analyzeSafetyLivenessInteraction: the
 environment must start with an input that it is allowed to start with

---
 src/extensionAnalyzeSafetyLivenessInteraction.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionAnalyzeSafetyLivenessInteraction.hpp b/src/extensionAnalyzeSafetyLivenessInteraction.hpp
index 51843a6..ec5a3a9 100644
--- a/src/extensionAnalyzeSafetyLivenessInteraction.hpp
+++ b/src/extensionAnalyzeSafetyLivenessInteraction.hpp
@@ -151,7 +151,7 @@ protected:
                 winningPositions |= (safetyEnv & (winningPositions.SwapVariables(varVectorPre,varVectorPost) | !safetySys).UnivAbstract(varCubePostOutput)).ExistAbstract(varCubePostInput);
                 round++;
                 if ((roundFoundInitPos==-1) &&
-                        ((!initSys) | (initEnv & winningPositions)).UnivAbstract(varCubePreOutput).ExistAbstract(varCubePreInput).isTrue()) {
+                        (initEnv & ((!initSys) | winningPositions)).UnivAbstract(varCubePreOutput).ExistAbstract(varCubePreInput).isTrue()) {
                     roundFoundInitPos = round;
                 }
             }
-- 
2.43.0


From 33e9746fd99576ceeb8f9a519a2d91d62d903d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 22/46] fix: --computeInterestingRunOfTheSystem: the run must
 take the transitions that its goal columns talk about

---
 src/extensionComputeInterestingRunOfTheSystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionComputeInterestingRunOfTheSystem.hpp b/src/extensionComputeInterestingRunOfTheSystem.hpp
index 48dba8d..0580a8d 100644
--- a/src/extensionComputeInterestingRunOfTheSystem.hpp
+++ b/src/extensionComputeInterestingRunOfTheSystem.hpp
@@ -154,7 +154,7 @@ public:
 
             // Compute next position
             assert(nextPosition < safetySys);
-            nextPosition = determinizeRandomized(nextPosition.ExistAbstract(varCubePre).SwapVariables(varVectorPre,varVectorPost),preVars);
+            nextPosition = edge.ExistAbstract(varCubePre).SwapVariables(varVectorPre,varVectorPost);
             trace.push_back(nextPosition);
 
             //std::ostringstream npname;
-- 
2.43.0


From bc1b9c12c598dfa19f755b24a6a1fded86c6be7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 23/46] fix: --computeInterestingRunOfTheSystem: properties
 that hold on exactly one transition, or none, were judged wrongly

---
 src/extensionComputeInterestingRunOfTheSystem.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/extensionComputeInterestingRunOfTheSystem.hpp b/src/extensionComputeInterestingRunOfTheSystem.hpp
index 0580a8d..1cf3eac 100644
--- a/src/extensionComputeInterestingRunOfTheSystem.hpp
+++ b/src/extensionComputeInterestingRunOfTheSystem.hpp
@@ -129,7 +129,7 @@ public:
             //BF_newDumpDot(*this,currentPosition,"Pre Post",flexname.str().c_str());
 
             // Sys Liveness progress
-            if (edge < livenessGuarantees[systemGoals.back()]) {
+            if (!(edge.isFalse()) && (edge <= livenessGuarantees[systemGoals.back()])) {
                 systemGoals.push_back((systemGoals.back() + 1) % livenessGuarantees.size());
                 systemGoalsSat.push_back(true);
             } else {
@@ -139,7 +139,7 @@ public:
             }
 
             // Env Liveness progress
-            if (edge < livenessAssumptions[environmentGoals.back()]) {
+            if (!(edge.isFalse()) && (edge <= livenessAssumptions[environmentGoals.back()])) {
                 environmentGoals.push_back((environmentGoals.back() + 1) % livenessAssumptions.size());
                 environmentGoalsSat.push_back(true);
             } else {
@@ -149,8 +149,8 @@ public:
             }
 
             // Violations
-            safetyEnvViolation.push_back(!(edge < safetyEnv));
-            safetySysViolation.push_back(!(edge < safetySys));
+            safetyEnvViolation.push_back(!(edge <= safetyEnv));
+            safetySysViolation.push_back(!(edge <= safetySys));
 
             // Compute next position
             assert(nextPosition < safetySys);
-- 
2.43.0


From 7546db057c4f04550e70ae3e8d6b8c55ff3faa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 24/46] fix: --computeInterestingRunOfTheSystem: the last row
 read behind the end of three vectors

---
 src/extensionComputeInterestingRunOfTheSystem.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/extensionComputeInterestingRunOfTheSystem.hpp b/src/extensionComputeInterestingRunOfTheSystem.hpp
index 1cf3eac..bdb1d39 100644
--- a/src/extensionComputeInterestingRunOfTheSystem.hpp
+++ b/src/extensionComputeInterestingRunOfTheSystem.hpp
@@ -163,6 +163,9 @@ public:
         }
 
         systemGoalsSat.push_back(false);
+        environmentGoalsSat.push_back(false);
+        safetyEnvViolation.push_back(false);
+        safetySysViolation.push_back(false);
 
         //========================
         // Compute variable groups
-- 
2.43.0


From f68b1b4c0f7c034dc48455f7bbd2988c13173d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 25/46] fix: --computeInterestingRunOfTheSystem: the
 environment must not plan with inputs that violate its safety assumptions

---
 src/extensionComputeInterestingRunOfTheSystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionComputeInterestingRunOfTheSystem.hpp b/src/extensionComputeInterestingRunOfTheSystem.hpp
index bdb1d39..db6d813 100644
--- a/src/extensionComputeInterestingRunOfTheSystem.hpp
+++ b/src/extensionComputeInterestingRunOfTheSystem.hpp
@@ -88,7 +88,7 @@ public:
             BF moves = mgr.constantFalse();
             do {
                 oldWinning = winning;
-                BF newMoves = (((livenessAssumptions[i] | oldWinning.SwapVariables(varVectorPre,varVectorPost)) & nonDeadlockingTransitions) | (!safetySys)).UnivAbstract(varCubePostOutput);
+                BF newMoves = (((livenessAssumptions[i] | oldWinning.SwapVariables(varVectorPre,varVectorPost)) & nonDeadlockingTransitions) | (!safetySys)).UnivAbstract(varCubePostOutput) & safetyEnv;
                 winning = newMoves.ExistAbstract(varCubePostInput);
                 moves |= winning & !oldWinning & newMoves;
             } while (winning!=oldWinning);
-- 
2.43.0


From aba2f24a23172fac4f427407102e336867dbcf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 26/46] fix: --computeAbstractWinningTrace: the environment
 must start with an input that it is allowed to start with

---
 src/extensionAbstractWinningTraceGenerator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionAbstractWinningTraceGenerator.hpp b/src/extensionAbstractWinningTraceGenerator.hpp
index c09daa6..cdf56b2 100644
--- a/src/extensionAbstractWinningTraceGenerator.hpp
+++ b/src/extensionAbstractWinningTraceGenerator.hpp
@@ -118,7 +118,7 @@ protected:
                 winningPositions |= (safetyEnv & (winningPositions.SwapVariables(varVectorPre,varVectorPost) | !safetySys).UnivAbstract(varCubePostOutput)).ExistAbstract(varCubePostInput);
                 round++;
                 if ((roundFoundInitPos==-1) &&
-                        ((!initSys) | (initEnv & winningPositions)).UnivAbstract(varCubePreOutput).ExistAbstract(varCubePreInput).isTrue()) {
+                        (initEnv & ((!initSys) | winningPositions)).UnivAbstract(varCubePreOutput).ExistAbstract(varCubePreInput).isTrue()) {
                     roundFoundInitPos = round;
                 }
             }
-- 
2.43.0


From ad5f72cac6a38be43cc6a5d650b138ca6d3c7982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 27/46] fix: --nonDeterministicMotion: the values of [OTHER
 OUTPUT] variables are chosen by the system

---
 src/extensionNondeterministicMotion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionNondeterministicMotion.hpp b/src/extensionNondeterministicMotion.hpp
index 80c6fac..688802d 100644
--- a/src/extensionNondeterministicMotion.hpp
+++ b/src/extensionNondeterministicMotion.hpp
@@ -35,7 +35,7 @@ protected:
     SlugsVectorOfVarBFs postMotionStateVars{PostMotionState,this};
     SlugsVarCube varCubePreMotionState{PreMotionState,this};
     SlugsVarCube varCubePostMotionState{PostMotionState,this};
-    SlugsVarCube varCubePostControllerOutput{PostMotionControlOutput,this};
+    SlugsVarCube varCubePostControllerOutput{PostMotionControlOutput,PostOtherOutput,this};
 
 public:
     static GR1Context* makeInstance(std::list<std::string> &filenames) {
-- 
2.43.0


From 33d296c240d025501843b3b59bc0338f37a1808f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 28/46] fix: --twoDimensionalCost: helper bits are chosen such
 that the next goal can be reached, and positions after several infinite waits
 are found

---
 src/extensionTwoDimensionalCost.hpp | 35 ++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/extensionTwoDimensionalCost.hpp b/src/extensionTwoDimensionalCost.hpp
index 55b1caa..2f62440 100644
--- a/src/extensionTwoDimensionalCost.hpp
+++ b/src/extensionTwoDimensionalCost.hpp
@@ -317,6 +317,7 @@ public:
         // Computation of the winning strategy
         // ===================================
         strategyDumpingData.clear();
+        std::vector<BF> positionsWinningForGoals;
         for (unsigned int livenessGoal=0;livenessGoal<livenessGuarantees.size();livenessGoal++) {
             // std::cerr << "Processing liveness objective number " << livenessGoal << std::endl;
 
@@ -441,19 +442,18 @@ public:
 
                         // Solve a reachability game "on top" in order to find states that are only winning
                         // because of the new SCC
-                        BF allowedEndingTransitions = transitionsAlreadyFoundToBeWinning;
+                        BF allowedEndingTransitions = livenessGuarantees[livenessGoal];
                         BF winningPositionsOld = mgr.constantTrue();
-                        BF winningPositionsNew = mgr.constantFalse();
-                        BF oldPositionsWinning = positionsAlreadyFoundToBeWinning;
+                        BF winningPositionsNew = positionsAlreadyFoundToBeWinning;
                         while (winningPositionsNew!=winningPositionsOld) {
                             winningPositionsOld = winningPositionsNew;
-                            BF newWinningTransitions = (isInftyCostPreVars[0]) & safetySys & (allowedEndingTransitions | (winningPositionsNew.SwapVariables(varVectorPre,varVectorPost)));
-                            winningPositionsNew = ((!safetyEnv) | newWinningTransitions.ExistAbstract(varCubePostOutput)).UnivAbstract(varCubePostInput);
-                            strategyDumpingData.push_back(std::pair<int,BF>(livenessGoal,newWinningTransitions & winningPositionsNew & preTransitionalStateEncoding));
+                            BF newWinningTransitions = preTransitionalStateEncoding & (isInftyCostPreVars[0]) & safetySys & (allowedEndingTransitions | (winningPositionsNew.SwapVariables(varVectorPre,varVectorPost)));
+                            winningPositionsNew |= preTransitionalStateEncoding & (isInftyCostPreVars[0]) & ((!safetyEnv) | newWinningTransitions.ExistAbstract(varCubePostOutput)).UnivAbstract(varCubePostInput);
+                            strategyDumpingData.push_back(std::pair<int,BF>(livenessGoal,newWinningTransitions));
                             // std::cerr << "Added Strategy dumping data " << strategyDumpingData.size() << " at line " << __LINE__ << std::endl;
-                            transitionsAlreadyFoundToBeWinning |= newWinningTransitions & winningPositionsNew & preTransitionalStateEncoding;
+                            transitionsAlreadyFoundToBeWinning |= newWinningTransitions;
                             //BF_newDumpDot(*this,positionsAlreadyFoundToBeWinning,NULL,filename.str()+"winningPosOld.dot");
-                            positionsAlreadyFoundToBeWinning |= winningPositionsNew & preTransitionalStateEncoding;
+                            positionsAlreadyFoundToBeWinning |= winningPositionsNew;
                             //BF_newDumpDot(*this,newWinningTransitions,NULL,filename.str()+"winningTrans.dot");
                             //BF_newDumpDot(*this,winningPositionsNew,NULL,filename.str()+"winningPosNew.dot");
                         }
@@ -638,8 +638,8 @@ public:
                         BF oldPositionsWinning = mgr.constantFalse();
                         while (winningPositionsNew!=winningPositionsOld) {
                             winningPositionsOld = winningPositionsNew;
-                            BF newWinningTransitions = (!(isInftyCostPreVars[0])) & safetySys & (allowedEndingTransitions | (transitionCosts[0.0] & winningPositionsNew.SwapVariables(varVectorPre,varVectorPost)));
-                            winningPositionsNew = ((!safetyEnv) | newWinningTransitions.ExistAbstract(varCubePostOutput)).UnivAbstract(varCubePostInput);
+                            BF newWinningTransitions = preTransitionalStateEncoding & (!(isInftyCostPreVars[0])) & safetySys & (allowedEndingTransitions | (transitionCosts[0.0] & winningPositionsNew.SwapVariables(varVectorPre,varVectorPost)));
+                            winningPositionsNew |= preTransitionalStateEncoding & (!(isInftyCostPreVars[0])) & ((!safetyEnv) | newWinningTransitions.ExistAbstract(varCubePostOutput)).UnivAbstract(varCubePostInput);
                             strategyDumpingData.push_back(std::pair<int,BF>(livenessGoal,newWinningTransitions & winningPositionsNew & preTransitionalStateEncoding));
                             // std::cerr << "Added Strategy dumping data " << strategyDumpingData.size() << " at line " << __LINE__ << std::endl;
                             transitionsAlreadyFoundToBeWinning |= newWinningTransitions & winningPositionsNew & preTransitionalStateEncoding;
@@ -677,6 +677,8 @@ public:
 
             }
 
+            positionsWinningForGoals.push_back(positionsAlreadyFoundToBeWinning);
+
             // Let's dump the strategy data!
             /*unsigned int i = 0;
             for (auto it = strategyDumpingData.begin();it!=strategyDumpingData.end();it++) {
@@ -724,6 +726,19 @@ public:
 
         } // Iteration through all liveness goals completed
 
+        // When a goal is reached, the additional bits must get values that permit to reach the next goal. Goals
+        // that the transition reaches as well may be skipped.
+        for (auto it = strategyDumpingData.begin();it!=strategyDumpingData.end();it++) {
+            BF reached = livenessGuarantees[it->first];
+            BF allowed = (!safetyEnv) | !reached;
+            for (unsigned int i=1;i<=livenessGuarantees.size();i++) {
+                unsigned int next = (it->first+i) % livenessGuarantees.size();
+                BF waitingForNext = (next==it->first)?reached:(reached & !livenessGuarantees[next]);
+                allowed |= waitingForNext & positionsWinningForGoals[next].SwapVariables(varVectorPre,varVectorPost);
+                reached &= livenessGuarantees[next];
+            }
+            it->second &= allowed;
+        }
 
     }
 
-- 
2.43.0


From 52d0a2ab6fca664ab1d0e6d5227a673b364df9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:32 +0000
Subject: [PATCH 29/46] fix: structured slugs compiler: translate exclusive
 disjunctions

---
 tools/StructuredSlugsParser/compiler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/StructuredSlugsParser/compiler.py b/tools/StructuredSlugsParser/compiler.py
index e8d3f6b..4cef0b2 100755
--- a/tools/StructuredSlugsParser/compiler.py
+++ b/tools/StructuredSlugsParser/compiler.py
@@ -412,6 +412,11 @@ def parseSimpleFormula(tree, isPrimed):
         for a in tree[2:]:
             ret = ["|"]+ret+parseSimpleFormula(a,isPrimed)
         return ret
+    if (tree[0]=="Xor"):
+        ret = parseSimpleFormula(tree[1],isPrimed)
+        for a in tree[2:]:
+            ret = ["^"]+ret+parseSimpleFormula(a,isPrimed)
+        return ret
     if (tree[0]=="UnaryFormula"):
         if tree[1][0]=="NotOperator":
             return ["!"]+parseSimpleFormula(tree[2],isPrimed)
-- 
2.43.0


From d5eb6f274c216a804a3646bcc610788a38bba880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:32 +0000
Subject: [PATCH 30/46] fix: structured slugs compiler: refuse comparisons of
 variables with negative minimum instead of running forever

---
 tools/StructuredSlugsParser/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/StructuredSlugsParser/compiler.py b/tools/StructuredSlugsParser/compiler.py
index 4cef0b2..c914cb6 100755
--- a/tools/StructuredSlugsParser/compiler.py
+++ b/tools/StructuredSlugsParser/compiler.py
@@ -324,6 +324,8 @@ def addMinimumValueToAllVariables(tree):
         if primed:
             apName = apName[0:len(apName)-1]
         (minimum,maximum) = numberAPLimits[apName]
+        if minimum<0:
+            raise Exception("Variables with negative minimal values cannot be used in number comparisons: "+apName)
         if minimum==0:
             return tree
         else:
-- 
2.43.0


From 68760c8e8de8897bd1a862bfaac519f40a196e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:32 +0000
Subject: [PATCH 31/46] fix: structured slugs compiler: refuse unknown section
 names instead of dropping them

---
 tools/StructuredSlugsParser/compiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/StructuredSlugsParser/compiler.py b/tools/StructuredSlugsParser/compiler.py
index c914cb6..b3ae0f2 100755
--- a/tools/StructuredSlugsParser/compiler.py
+++ b/tools/StructuredSlugsParser/compiler.py
@@ -498,8 +498,8 @@ def performConversion(inputFile,thoroughly):
         line = line.strip()
         if line.startswith("["):
             mode = line
-            # if not mode in lines:
-            #    lines[mode] = []
+            if not mode in lines:
+                raise Exception("Unknown section: "+line)
         else:
             if mode=="" and line.startswith("#"):
                 # Initial comments
-- 
2.43.0


From 56ba9ea986a8f4688622d9bb0edd54d2ffbe60e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:28 +0000
Subject: [PATCH 32/46] fix: two-dimensional cost: recovery moves respect the
 safety guarantees

---
 src/extensionTwoDimensionalCost.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/extensionTwoDimensionalCost.hpp b/src/extensionTwoDimensionalCost.hpp
index 2f62440..a0bb17d 100644
--- a/src/extensionTwoDimensionalCost.hpp
+++ b/src/extensionTwoDimensionalCost.hpp
@@ -730,14 +730,15 @@ public:
         // that the transition reaches as well may be skipped.
         for (auto it = strategyDumpingData.begin();it!=strategyDumpingData.end();it++) {
             BF reached = livenessGuarantees[it->first];
-            BF allowed = (!safetyEnv) | !reached;
+            BF allowed = (!reached) & (safetyEnv | positionsWinningForGoals[it->first].SwapVariables(varVectorPre,varVectorPost));
             for (unsigned int i=1;i<=livenessGuarantees.size();i++) {
                 unsigned int next = (it->first+i) % livenessGuarantees.size();
                 BF waitingForNext = (next==it->first)?reached:(reached & !livenessGuarantees[next]);
                 allowed |= waitingForNext & positionsWinningForGoals[next].SwapVariables(varVectorPre,varVectorPost);
                 reached &= livenessGuarantees[next];
             }
-            it->second &= allowed;
+            // Moves that answer a violation of the safety assumptions must respect the safety guarantees as well
+            it->second &= allowed & (safetyEnv | safetySys);
         }
 
     }
-- 
2.43.0


From 4b996ba7a83e3969d02afc212a8b4d4259ca1b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:28 +0000
Subject: [PATCH 33/46] fix: two-dimensional cost: positions with senseless
 helper bits are not winning

---
 src/extensionTwoDimensionalCost.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/extensionTwoDimensionalCost.hpp b/src/extensionTwoDimensionalCost.hpp
index a0bb17d..61d4980 100644
--- a/src/extensionTwoDimensionalCost.hpp
+++ b/src/extensionTwoDimensionalCost.hpp
@@ -741,6 +741,9 @@ public:
             it->second &= allowed & (safetyEnv | safetySys);
         }
 
+        // Only positions with sensible values of the additional bits are winning
+        winningPositions &= positionsWinningForGoals[0];
+
     }
 
     /**
-- 
2.43.0


From 9e2e9990d92c4954df9e40d3a961c037c5643a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:10 +0000
Subject: [PATCH 34/46] fix: refuse input files that cannot be read to the end

---
 src/extensionAnalyzeAssumptions.hpp                      | 1 +
 src/extensionAnalyzeInitialPositions.hpp                 | 1 +
 src/extensionIROSfastslow.hpp                            | 1 +
 src/extensionIncompleteInformationEstimatorSynthesis.hpp | 1 +
 src/extensionNondeterministicMotion.hpp                  | 1 +
 src/extensionTwoDimensionalCost.hpp                      | 1 +
 src/synthesisContextBasics.cpp                           | 1 +
 7 files changed, 7 insertions(+)

diff --git a/src/extensionAnalyzeAssumptions.hpp b/src/extensionAnalyzeAssumptions.hpp
index f4a3605..533ff42 100644
--- a/src/extensionAnalyzeAssumptions.hpp
+++ b/src/extensionAnalyzeAssumptions.hpp
@@ -161,6 +161,7 @@ protected:
                 }
             }
         }
+        if (inFile.bad()) throw "Error: Reading the input file failed";
 
         // Check if variable names have been used twice
         std::set<std::string> variableNameSet(variableNames.begin(),variableNames.end());
diff --git a/src/extensionAnalyzeInitialPositions.hpp b/src/extensionAnalyzeInitialPositions.hpp
index b30be78..6d899c6 100644
--- a/src/extensionAnalyzeInitialPositions.hpp
+++ b/src/extensionAnalyzeInitialPositions.hpp
@@ -363,6 +363,7 @@ public:
                 }
             }
         }
+        if (inFile.bad()) throw "Error: Reading the input file failed";
 
         // Check if variable names have been used twice
         std::set<std::string> variableNameSet(variableNames.begin(),variableNames.end());
diff --git a/src/extensionIROSfastslow.hpp b/src/extensionIROSfastslow.hpp
index 50b81ad..e44ab1a 100644
--- a/src/extensionIROSfastslow.hpp
+++ b/src/extensionIROSfastslow.hpp
@@ -189,6 +189,7 @@ void init(std::list<std::string> &filenames) {
             }
         }
     }
+    if (inFile.bad()) throw "Error: Reading the input file failed";
 
     // Check if variable names have been used twice
     std::set<std::string> variableNameSet(variableNames.begin(),variableNames.end());
diff --git a/src/extensionIncompleteInformationEstimatorSynthesis.hpp b/src/extensionIncompleteInformationEstimatorSynthesis.hpp
index f3bccec..a419a1b 100644
--- a/src/extensionIncompleteInformationEstimatorSynthesis.hpp
+++ b/src/extensionIncompleteInformationEstimatorSynthesis.hpp
@@ -145,6 +145,7 @@ protected:
                 }
             }
         }
+        if (inFile.bad()) throw "Error: Reading the input file failed";
 
         // Check if variable names have been used twice
         std::set<std::string> variableNameSet(variableNames.begin(),variableNames.end());
diff --git a/src/extensionNondeterministicMotion.hpp b/src/extensionNondeterministicMotion.hpp
index 688802d..0df18c5 100644
--- a/src/extensionNondeterministicMotion.hpp
+++ b/src/extensionNondeterministicMotion.hpp
@@ -334,6 +334,7 @@ public:
                 }
             }
         }
+        if (inFile.bad()) throw "Error: Reading the input file failed";
 
         std::vector<BF> varsBDDread;
         // Invert all order to get the least significant bit first
diff --git a/src/extensionTwoDimensionalCost.hpp b/src/extensionTwoDimensionalCost.hpp
index 61d4980..fdd3753 100644
--- a/src/extensionTwoDimensionalCost.hpp
+++ b/src/extensionTwoDimensionalCost.hpp
@@ -209,6 +209,7 @@ public:
                 }
             }
         }
+        if (inFile.bad()) throw "Error: Reading the input file failed";
     }
 
     /**
diff --git a/src/synthesisContextBasics.cpp b/src/synthesisContextBasics.cpp
index f1be2a9..8fc102f 100644
--- a/src/synthesisContextBasics.cpp
+++ b/src/synthesisContextBasics.cpp
@@ -222,6 +222,7 @@ void GR1Context::init(std::list<std::string> &filenames) {
             }
         }
     }
+    if (inFile.bad()) throw "Error: Reading the input file failed";
 
     // Check if variable names have been used twice
     std::set<std::string> variableNameSet(variableNames.begin(),variableNames.end());
-- 
2.43.0


From 374aba4ebe2bf506957611cabb8cc7c2179d2fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:10 +0000
Subject: [PATCH 35/46] fix: report output files that could not be written
 completely

---
 src/extensionExtractExplicitCounterstrategy.hpp | 2 +-
 src/extensionExtractExplicitStrategy.hpp        | 2 +-
 src/extensionPermissiveExplicitStrategy.hpp     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/extensionExtractExplicitCounterstrategy.hpp b/src/extensionExtractExplicitCounterstrategy.hpp
index e98d6aa..4410fd9 100644
--- a/src/extensionExtractExplicitCounterstrategy.hpp
+++ b/src/extensionExtractExplicitCounterstrategy.hpp
@@ -76,12 +76,12 @@ void execute() {
                     throw ex;
                 }
                 computeAndPrintExplicitStateStrategy(of);
+                of.close();
                 if (of.fail()) {
                     SlugsException ex(false);
                     ex << "Error: Writing to output file'" << outputFilename << "failed. \n";
                     throw ex;
                 }
-                of.close();
             }
         }
 }
diff --git a/src/extensionExtractExplicitStrategy.hpp b/src/extensionExtractExplicitStrategy.hpp
index e2f71c8..4aeffb3 100644
--- a/src/extensionExtractExplicitStrategy.hpp
+++ b/src/extensionExtractExplicitStrategy.hpp
@@ -62,12 +62,12 @@ public:
                     throw ex;
                 }
                 computeAndPrintExplicitStateStrategy(of);
+                of.close();
                 if (of.fail()) {
                     SlugsException ex(false);
                     ex << "Error: Writing to output file'" << outputFilename << "failed. \n";
                     throw ex;
                 }
-                of.close();
             }
         }
     }
diff --git a/src/extensionPermissiveExplicitStrategy.hpp b/src/extensionPermissiveExplicitStrategy.hpp
index 8695ccc..111d86c 100644
--- a/src/extensionPermissiveExplicitStrategy.hpp
+++ b/src/extensionPermissiveExplicitStrategy.hpp
@@ -65,12 +65,12 @@ public:
                     throw ex;
                 }
                 computeAndPrintExplicitStateStrategy(of);
+                of.close();
                 if (of.fail()) {
                     SlugsException ex(false);
                     ex << "Error: Writing to output file'" << outputFilename << "failed. \n";
                     throw ex;
                 }
-                of.close();
             }
         }
     }
-- 
2.43.0


From e5529fef6f762e1f98d16f3c5f295a5c8891a94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:11 +0000
Subject: [PATCH 36/46] fix: report BDD files that cannot be read or written as
 errors

---
 src/BFAbstractionLibrary/BFCuddManager.cpp | 6 ++++--
 src/main.cpp                               | 3 +++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/BFAbstractionLibrary/BFCuddManager.cpp b/src/BFAbstractionLibrary/BFCuddManager.cpp
index 094e486..7345b50 100644
--- a/src/BFAbstractionLibrary/BFCuddManager.cpp
+++ b/src/BFAbstractionLibrary/BFCuddManager.cpp
@@ -146,6 +146,7 @@ BFBdd BFBddManager::readBDDFromFile(const char *filename, std::vector<BFBdd> &va
     DdNode *node = Dddmp_cuddBddLoad(mgr, DDDMP_VAR_COMPOSEIDS, NULL, NULL, idMatcher, DDDMP_MODE_DEFAULT,NULL,file);
     fclose(file);
     delete[] idMatcher;
+    if (node == NULL) throw "Error: Unable to read BDD from file.";
     Cudd_Deref(node);
     return BFBdd(this,node);   
 }
@@ -186,9 +187,10 @@ void BFBddManager::writeBDDToFile(const char *filename, std::string fileprefix,
     );
 
     delete[] idMatcher;
-    fclose(file);
+    bool writeError = ferror(file)!=0;
+    if (fclose(file)!=0) writeError = true;
 
-    if (storeReturnValue!=DDDMP_SUCCESS) throw "Error: Unable to write BDD to file.";
+    if (writeError || (storeReturnValue!=DDDMP_SUCCESS)) throw "Error: Unable to write BDD to file.";
 
 }
 
diff --git a/src/main.cpp b/src/main.cpp
index 792b039..c26ca71 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -370,6 +370,9 @@ int main(int argc, const char **args) {
     } catch (BFDumpDotException e) {
         std::cerr << "Error: " << e.getMessage() << std::endl;
         return 1;
+    } catch (const std::exception &e) {
+        std::cerr << "Error: " << e.what() << std::endl;
+        return 1;
     }
 
 }
-- 
2.43.0


From 83a94fba3c664d963a0e1bc76109a0babbf9ca76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:11 +0000
Subject: [PATCH 37/46] fix: report failures to write the result to the
 standard output

---
 src/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index c26ca71..2e16f5c 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -347,6 +347,10 @@ int main(int argc, const char **args) {
                 context->computeVariableInformation();
                 context->execute();
                 delete context;
+                if (!std::cout.flush()) {
+                    std::cerr << "Error: Writing to the standard output failed.\n";
+                    return 1;
+                }
                 return 0;
             } // else { std::cerr << optionCombinations[i].params << ":" << totalParameters << "!\n"; }
         }
-- 
2.43.0


From 26a89bb96a1fdc1a4b2160ae2c12688c353a18a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:19 +0000
Subject: [PATCH 38/46] fix: two-dimensional cost: refuse cost lines without a
 formula

---
 src/extensionTwoDimensionalCost.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionTwoDimensionalCost.hpp b/src/extensionTwoDimensionalCost.hpp
index fdd3753..4cec21c 100644
--- a/src/extensionTwoDimensionalCost.hpp
+++ b/src/extensionTwoDimensionalCost.hpp
@@ -188,7 +188,7 @@ public:
                 if (nextLine[0]=='#') {
                     // Pass
                 } else {
-                    unsigned int spaceIndex = nextLine.find(" ");
+                    size_t spaceIndex = nextLine.find(" ");
                     if (spaceIndex==std::string::npos) {
                         std::cerr << "Error: Cannot read line'" << nextLine << "' from the input file - expecting space-separated cost value (floating point number) in front of the line.\n";
                         throw "Terminated.";
-- 
2.43.0


From cf7093156b8a7072527d80a82b7cb8893f4052bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:10 +0000
Subject: [PATCH 39/46] fix: refuse BDD files with more variables than expected

---
 src/BFAbstractionLibrary/BFCuddManager.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/BFAbstractionLibrary/BFCuddManager.cpp b/src/BFAbstractionLibrary/BFCuddManager.cpp
index 7345b50..2ffe745 100644
--- a/src/BFAbstractionLibrary/BFCuddManager.cpp
+++ b/src/BFAbstractionLibrary/BFCuddManager.cpp
@@ -139,6 +139,27 @@ BFBdd BFBddManager::readBDDFromFile(const char *filename, std::vector<BFBdd> &va
         throw std::runtime_error(os.str().c_str());
     }
 
+    // Make sure that the file does not use variables that we do not have.
+    Dddmp_DecompType ddType;
+    int nofVars, nofSuppVars, nofRoots;
+    char **suppVarNames, **orderedVarNames;
+    int *varIds = NULL, *varComposeIds = NULL, *varAuxIds = NULL;
+    int headerReturnValue = Dddmp_cuddHeaderLoad(&ddType,&nofVars,&nofSuppVars,&suppVarNames,&orderedVarNames,&varIds,&varComposeIds,&varAuxIds,&nofRoots,NULL,file);
+    bool variablesFit = headerReturnValue==DDDMP_SUCCESS;
+    if (variablesFit) {
+        for (int i=0;i<nofSuppVars;i++) {
+            if ((varIds[i]<0) || (varIds[i]>=(int)(vars.size()))) variablesFit = false;
+        }
+        free(varIds);
+        free(varComposeIds);
+        free(varAuxIds);
+    }
+    if (!variablesFit) {
+        fclose(file);
+        throw "Error: The BDD file cannot be read or uses more variables than there are.";
+    }
+    rewind(file);
+
     int *idMatcher = new int[vars.size()];
     for (unsigned int i=0;i<vars.size();i++) {
         idMatcher[i] = vars[i].readNodeIndex();
-- 
2.43.0


From 390d2bbe0d09c99d092151c9db5fe80c22e75f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:34 +0000
Subject: [PATCH 40/46] fix: explicitStrategyToGraphviz: states without
 successors

---
 tools/explicitStrategyToGraphviz.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/explicitStrategyToGraphviz.py b/tools/explicitStrategyToGraphviz.py
index 29f59e2..08b9556 100755
--- a/tools/explicitStrategyToGraphviz.py
+++ b/tools/explicitStrategyToGraphviz.py
@@ -32,9 +32,9 @@ for line in sys.stdin.readlines():
     propositions = thesePropositions
     
     states[stateNo] = (rank,theseValues)
-  if line.strip().startswith("With successors : "):
-    successors = line.strip()[18:]
-    successors = [a.strip() for a in successors.split(",")]
+  if line.strip().startswith("With successors :"):
+    successors = line.strip()[17:]
+    successors = [a.strip() for a in successors.split(",") if a.strip()!=""]
     transitions[stateNo] = successors
 
 # Empty output
-- 
2.43.0


From 796a6af590468600d3fd014058d02151a26f7a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:34 +0000
Subject: [PATCH 41/46] fix: findMinimalUnrealizableCore: do not pass an option
 that slugs no longer has

---
 tools/findMinimalUnrealizableCore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/findMinimalUnrealizableCore.py b/tools/findMinimalUnrealizableCore.py
index 94e7cdc..867c48e 100755
--- a/tools/findMinimalUnrealizableCore.py
+++ b/tools/findMinimalUnrealizableCore.py
@@ -20,7 +20,7 @@ def isRealizable():
     # =====================================================
     # Slugs
     # =====================================================
-    command = slugsExecutableAndBasicOptions + " --onlyRealizability /tmp/core.slugsin 2> "+slugsReturnFile
+    command = slugsExecutableAndBasicOptions + " /tmp/core.slugsin 2> "+slugsReturnFile
     retValue = os.system(command)
     if (retValue!=0):
         print >>sys.stderr, "Slugs failed!"
-- 
2.43.0


From 41bfdb6dbc9da51ea96430a4d7bbd5fc440e4c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:34 +0000
Subject: [PATCH 42/46] fix: multiDimensionalRealizabilitySearch: end when the
 script gives no answer

---
 tools/multiDimensionalRealizabilitySearch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/multiDimensionalRealizabilitySearch.py b/tools/multiDimensionalRealizabilitySearch.py
index e7b1b51..c715050 100755
--- a/tools/multiDimensionalRealizabilitySearch.py
+++ b/tools/multiDimensionalRealizabilitySearch.py
@@ -169,6 +169,7 @@ def runSearch(scriptName, oldParameterTypes):
             print "No, after %f seconds" % totalTime
         else:
             print >>sys.stderr, "Error: Could not obtain a result from the called script."            
+            sys.exit(1)
             
             
 
-- 
2.43.0


From 1c8ca693ce5e3a3cad68845e36dd02e8de8c35d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:34 +0000
Subject: [PATCH 43/46] fix: LTLMoP translator: translate exclusive
 disjunctions

---
 tools/translateFromLTLMopLTLFormatToSlugsFormat.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/translateFromLTLMopLTLFormatToSlugsFormat.py b/tools/translateFromLTLMopLTLFormatToSlugsFormat.py
index a7e7b2f..7e930df 100755
--- a/tools/translateFromLTLMopLTLFormatToSlugsFormat.py
+++ b/tools/translateFromLTLMopLTLFormatToSlugsFormat.py
@@ -280,6 +280,11 @@ def parseSimpleFormula(tree, isPrimed):
         for a in tree[2:]:
             ret = ["|"]+ret+parseSimpleFormula(a,isPrimed)
         return ret
+    if (tree[0]=="Xor"):
+        ret = parseSimpleFormula(tree[1],isPrimed)
+        for a in tree[2:]:
+            ret = ["^"]+ret+parseSimpleFormula(a,isPrimed)
+        return ret
     if (tree[0]=="UnaryFormula"):
         if tree[1][0]=="NotOperator":
             return ["!"]+parseSimpleFormula(tree[2],isPrimed)
-- 
2.43.0


From 905879bc3f713034c3f0670ae9773aff208e35f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:44 +0000
Subject: [PATCH 44/46] fix: RATSY translator: translate exclusive disjunctions

---
 tools/translateFromRatsyFormatToSlugsFormat.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/translateFromRatsyFormatToSlugsFormat.py b/tools/translateFromRatsyFormatToSlugsFormat.py
index d1a2e10..822b9fc 100755
--- a/tools/translateFromRatsyFormatToSlugsFormat.py
+++ b/tools/translateFromRatsyFormatToSlugsFormat.py
@@ -288,6 +288,11 @@ def parseSimpleFormula(tree, isPrimed):
         for a in tree[2:]:
             ret = ["|"]+ret+parseSimpleFormula(a,isPrimed)
         return ret
+    if (tree[0]=="Xor"):
+        ret = parseSimpleFormula(tree[1],isPrimed)
+        for a in tree[2:]:
+            ret = ["^"]+ret+parseSimpleFormula(a,isPrimed)
+        return ret
     if (tree[0]=="UnaryFormula"):
         if tree[1][0]=="NotOperator":
             return ["!"]+parseSimpleFormula(tree[2],isPrimed)
-- 
2.43.0


From e6d15dda4e8ddfc728ce061b36d27eee01249273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:44 +0000
Subject: [PATCH 45/46] fix: RATSY translator: a line break separates words

---
 tools/translateFromRatsyFormatToSlugsFormat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/translateFromRatsyFormatToSlugsFormat.py b/tools/translateFromRatsyFormatToSlugsFormat.py
index 822b9fc..4f4e6de 100755
--- a/tools/translateFromRatsyFormatToSlugsFormat.py
+++ b/tools/translateFromRatsyFormatToSlugsFormat.py
@@ -234,7 +234,7 @@ def performConversion(ltlFile):
             if mode==0:
                 print >>sys.stderr, "Error: Expective setting the section before the first activity."
                 raise
-            stringsOfType[mode] = stringsOfType[mode]+line
+            stringsOfType[mode] = stringsOfType[mode]+" "+line
     ltlFileStream.close()
 
     # Read inputBits
-- 
2.43.0


From a8d9725064e1384f06c5ecf75c5534cc04db4204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:44 +0000
Subject: [PATCH 46/46] fix: RATSY translator: names may begin with a keyword

---
 tools/translateFromRatsyFormatToSlugsFormat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/translateFromRatsyFormatToSlugsFormat.py b/tools/translateFromRatsyFormatToSlugsFormat.py
index 4f4e6de..20075ee 100755
--- a/tools/translateFromRatsyFormatToSlugsFormat.py
+++ b/tools/translateFromRatsyFormatToSlugsFormat.py
@@ -28,17 +28,17 @@ def tokenize(str):
             str = str[1:]
             continue
 
-        if str.startswith("FALSE"):
+        if match('FALSE(?![a-zA-Z0-9_.])', str):
             str = str[5:]
             res.append(("FALSE",))
             continue
 
-        if str.startswith("TRUE"):
+        if match('TRUE(?![a-zA-Z0-9_.])', str):
             str = str[4:]
             res.append(("TRUE",))
             continue
 
-        if str.startswith("next"):
+        if match('next(?![a-zA-Z0-9_.])', str):
             str = str[4:]
             res.append(("next",))
             continue
-- 
2.43.0

