From 8f818c438f818903a0bb6f173dc3eafeda51ad81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:54 +0000
Subject: [PATCH 001/103] fix: explicitStrategyToGraphviz.py crashed on states
 without successors

---
 tools/explicitStrategyToGraphviz.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/explicitStrategyToGraphviz.py b/tools/explicitStrategyToGraphviz.py
index 29f59e2..08b9556 100755
--- a/tools/explicitStrategyToGraphviz.py
+++ b/tools/explicitStrategyToGraphviz.py
@@ -32,9 +32,9 @@ for line in sys.stdin.readlines():
     propositions = thesePropositions
     
     states[stateNo] = (rank,theseValues)
-  if line.strip().startswith("With successors : "):
-    successors = line.strip()[18:]
-    successors = [a.strip() for a in successors.split(",")]
+  if line.strip().startswith("With successors :"):
+    successors = line.strip()[17:]
+    successors = [a.strip() for a in successors.split(",") if a.strip()!=""]
     transitions[stateNo] = successors
 
 # Empty output
-- 
2.43.0


From 4986e211a71e767adc790e2a15218984ed882b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:50 +0000
Subject: [PATCH 002/103] fix: --counterStrategy took the input file for the
 output file when an output file was given

---
 src/extensionExtractExplicitCounterstrategy.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/extensionExtractExplicitCounterstrategy.hpp b/src/extensionExtractExplicitCounterstrategy.hpp
index 30163b5..8d2198c 100644
--- a/src/extensionExtractExplicitCounterstrategy.hpp
+++ b/src/extensionExtractExplicitCounterstrategy.hpp
@@ -41,8 +41,11 @@ protected:
     using T::postOutputVars;
     using T::doesVariableInheritType;
 
-    XExtractExplicitCounterStrategy<T>(std::list<std::string> &filenames) : T(filenames) {
-        if (filenames.size()==1) {
+    XExtractExplicitCounterStrategy<T>(std::list<std::string> &filenames) : T(filenames) {}
+
+    void init(std::list<std::string> &filenames) {
+        T::init(filenames);
+        if (filenames.size()==0) {
             outputFilename = "";
         } else {
             outputFilename = filenames.front();
-- 
2.43.0


From 1d73e09bf7b4776137a17a73a79319e62086f1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:43 +0000
Subject: [PATCH 003/103] fix: explicit counter-strategies switched to
 guarantees that the environment cannot prevent

---
 ...xtensionExtractExplicitCounterstrategy.hpp | 34 ++++++++++++++-----
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/extensionExtractExplicitCounterstrategy.hpp b/src/extensionExtractExplicitCounterstrategy.hpp
index 8d2198c..440c554 100644
--- a/src/extensionExtractExplicitCounterstrategy.hpp
+++ b/src/extensionExtractExplicitCounterstrategy.hpp
@@ -119,6 +119,17 @@ void computeAndPrintExplicitStateStrategy(std::ostream &outputStream) {
         }
         positionalStrategiesForTheIndividualGoals[i] = strategy;
     }
+
+    // Compute which liveness guarantee is to be prevented from which positions. As the data in 'strategyDumpingData' is
+    // ordered by the iterations of the outermost fixed point, taking the first guarantee found for a position
+    // ensures that every switch to another guarantee makes progress towards winning.
+    std::vector<BF> positionsForPreventingTheGuarantees(livenessGuarantees.size(),mgr.constantFalse());
+    BF positionsCovered = mgr.constantFalse();
+    for (auto it = strategyDumpingData.begin();it!=strategyDumpingData.end();it++) {
+        BF positions = boost::get<2>(*it).UnivAbstract(varCubePostOutput).ExistAbstract(varCubePost);
+        positionsForPreventingTheGuarantees[boost::get<1>(*it)] |= positions & !positionsCovered;
+        positionsCovered |= positions;
+    }
     
     // Prepare initial to-do list from the allowed initial states. Select a single initial input valuation.
 
@@ -127,11 +138,11 @@ void computeAndPrintExplicitStateStrategy(std::ostream &outputStream) {
     while (!(todoInit.isFalse())) {
         BF concreteState = determinize(todoInit,preVars);
         
-        //find which liveness guarantee is being prevented (finds the first liveness in order specified)
+        //find which liveness guarantee is being prevented
         // Note by Ruediger here: Removed "!livenessGuarantees[j]" as condition as it is non-positional
         unsigned int found_j_index = 0;
         for (unsigned int j=0;j<livenessGuarantees.size();j++) {
-            if (!(concreteState & positionalStrategiesForTheIndividualGoals[0][j]).isFalse()) {
+            if (!(concreteState & positionsForPreventingTheGuarantees[j]).isFalse()) {
                 found_j_index = j;
                 break;
             }
@@ -193,12 +204,7 @@ void computeAndPrintExplicitStateStrategy(std::ostream &outputStream) {
                     nextLivenessAssumption  = (nextLivenessAssumption + 1) % livenessAssumptions.size();
                     firstTry = false;
                 }
-                unsigned int nextLivenessGuarantee = current.second.second;
-                firstTry = true;
-                while (((nextLivenessGuarantee != current.second.second) | firstTry) && !((livenessGuarantees[nextLivenessGuarantee] & newCombination).isFalse())) {
-                    nextLivenessGuarantee  = (nextLivenessGuarantee + 1) % livenessGuarantees.size();
-                    firstTry = false;
-                }
+                bool currentGuaranteeSatisfied = !((livenessGuarantees[current.second.second] & newCombination).isFalse());
 
                 //Mark which input has been captured by this case. Use the same input for other successors
                 remainingTransitions &= !newCombination;
@@ -206,6 +212,18 @@ void computeAndPrintExplicitStateStrategy(std::ostream &outputStream) {
                 // We don't need the pre information from the point onwards anymore.
                 newCombination = newCombination.ExistAbstract(varCubePre).SwapVariables(varVectorPre,varVectorPost);
 
+                // If the transition satisfies the guarantee to be prevented, then it leads closer to a position from
+                // which some guarantee can be prevented forever. The guarantee to be prevented depends on the new position.
+                unsigned int nextLivenessGuarantee = current.second.second;
+                if (currentGuaranteeSatisfied) {
+                    for (unsigned int j=0;j<livenessGuarantees.size();j++) {
+                        if (!(newCombination & positionsForPreventingTheGuarantees[j]).isFalse()) {
+                            nextLivenessGuarantee = j;
+                            break;
+                        }
+                    }
+                }
+
                 unsigned int tn;
 
                 std::pair<size_t, std::pair<unsigned int, unsigned int> > target;
-- 
2.43.0


From 7194a3caee6f4aeefb4f031e87d804f52ecb09b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:43 +0000
Subject: [PATCH 004/103] fix: explicit counter-strategies mixed up deadlocked
 and ordinary states in the absence of outputs

---
 src/extensionExtractExplicitCounterstrategy.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/extensionExtractExplicitCounterstrategy.hpp b/src/extensionExtractExplicitCounterstrategy.hpp
index 440c554..046e7a7 100644
--- a/src/extensionExtractExplicitCounterstrategy.hpp
+++ b/src/extensionExtractExplicitCounterstrategy.hpp
@@ -263,7 +263,9 @@ void computeAndPrintExplicitStateStrategy(std::ostream &outputStream) {
     
     newCombination  = (newCombination.ExistAbstract(varCubePostOutput).ExistAbstract(varCubePre)).SwapVariables(varVectorPre,varVectorPost);
     
-    std::pair<size_t, std::pair<unsigned int, unsigned int> > target = std::pair<size_t, std::pair<unsigned int, unsigned int> >(newCombination.getHashCode(),std::pair<unsigned int, unsigned int>(current.second.first, current.second.second));
+    // The first component of the goal pair is shifted in order not to mix up deadlocked states and ordinary ones, whose
+    // valuations are the same if there is no output.
+    std::pair<size_t, std::pair<unsigned int, unsigned int> > target = std::pair<size_t, std::pair<unsigned int, unsigned int> >(newCombination.getHashCode(),std::pair<unsigned int, unsigned int>(current.second.first+livenessAssumptions.size(), current.second.second));
     unsigned int tn;
     
     if (lookupTableForPastStates.count(target)==0) {
-- 
2.43.0


From 0b0b7d6292bf0a1fb9c9ed621a9381f5cb60f53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:33 +0000
Subject: [PATCH 005/103] fix: empty memory buffers and recalls of not yet
 stored elements crashed the parser

---
 src/extensionNondeterministicMotion.hpp | 12 +++++++++---
 src/synthesisContextBasics.cpp          | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/extensionNondeterministicMotion.hpp b/src/extensionNondeterministicMotion.hpp
index 1e4cb03..862193c 100644
--- a/src/extensionNondeterministicMotion.hpp
+++ b/src/extensionNondeterministicMotion.hpp
@@ -75,11 +75,17 @@ public:
                 e << "Error reading line " << lineNumberCurrentlyRead << ". Expected number of memory elements.";
                 throw e;
             }
-            std::vector<BF> memoryNew(nofElements);
+            if (nofElements==0) {
+                SlugsException e(false);
+                e << "Error reading line " << lineNumberCurrentlyRead << ". A memory buffer needs to have at least one element.";
+                throw e;
+            }
+            std::vector<BF> memoryNew;
             for (unsigned int i=0;i<nofElements;i++) {
-                memoryNew[i] = parseBooleanFormulaRecurseEx(is,allowedTypes,memoryNew,readBDDs);
+                BF element = parseBooleanFormulaRecurseEx(is,allowedTypes,memoryNew,readBDDs);
+                memoryNew.push_back(element);
             }
-            return memoryNew[nofElements-1];
+            return memoryNew.back();
         }
 
         // Memory Functionality - Recall from Buffer
diff --git a/src/synthesisContextBasics.cpp b/src/synthesisContextBasics.cpp
index d14ada0..d97ee7d 100644
--- a/src/synthesisContextBasics.cpp
+++ b/src/synthesisContextBasics.cpp
@@ -43,11 +43,17 @@ BF GR1Context::parseBooleanFormulaRecurse(std::istringstream &is,std::set<Variab
             e << "Error reading line " << lineNumberCurrentlyRead << ". Expected number of memory elements.";
             throw e;
         }
-        std::vector<BF> memoryNew(nofElements);
+        if (nofElements==0) {
+            SlugsException e(false);
+            e << "Error reading line " << lineNumberCurrentlyRead << ". A memory buffer needs to have at least one element.";
+            throw e;
+        }
+        std::vector<BF> memoryNew;
         for (unsigned int i=0;i<nofElements;i++) {
-            memoryNew[i] = parseBooleanFormulaRecurse(is,allowedTypes,memoryNew);
+            BF element = parseBooleanFormulaRecurse(is,allowedTypes,memoryNew);
+            memoryNew.push_back(element);
         }
-        return memoryNew[nofElements-1];
+        return memoryNew.back();
     }
 
     // Memory Functionality - Recall from Buffer
-- 
2.43.0


From bb70eb9987c0e9785c2fa4616665ee3f687e5de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:05 +0000
Subject: [PATCH 006/103] fix: --analyzeInterleaving read an uninitialised flag
 when no output can be set early

---
 src/extensionInterleave.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionInterleave.hpp b/src/extensionInterleave.hpp
index 004d9e4..0d44964 100644
--- a/src/extensionInterleave.hpp
+++ b/src/extensionInterleave.hpp
@@ -190,7 +190,7 @@ public:
             std::cout << "Starting point is a realizable specification.\n\n";
 
             // Try to "pre" Some variables
-            bool foundOne;
+            bool foundOne = false;
             for (unsigned int i=0;i<variables.size();i++) {
                 if (doesVariableInheritType(i,PreOutput)) {
                     variableTypes[i] = PreOutputBefore;
-- 
2.43.0


From a30a66dc5ba84d939f9c786eeb1580651346007e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:05 +0000
Subject: [PATCH 007/103] fix: an unwritable BDD output file ended slugs with
 an uncaught exception

---
 src/main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index 792b039..c26ca71 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -370,6 +370,9 @@ int main(int argc, const char **args) {
     } catch (BFDumpDotException e) {
         std::cerr << "Error: " << e.getMessage() << std::endl;
         return 1;
+    } catch (const std::exception &e) {
+        std::cerr << "Error: " << e.what() << std::endl;
+        return 1;
     }
 
 }
-- 
2.43.0


From d9936b79a141a2da6ea1e9316cda3c903e257ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:59 +0000
Subject: [PATCH 008/103] fix: --analyzeInitialPositions
 --restrictToReachableStates reported 'nan' losing inputs

---
 src/extensionAnalyzeInitialPositions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionAnalyzeInitialPositions.hpp b/src/extensionAnalyzeInitialPositions.hpp
index fe0cad2..53f3216 100644
--- a/src/extensionAnalyzeInitialPositions.hpp
+++ b/src/extensionAnalyzeInitialPositions.hpp
@@ -210,7 +210,7 @@ public:
         double nofWPosAG = (initEnv & initSys & winningPositions & variableLimits).getNofSatisfyingAssignments(varCubePre);
 
         double nofInputs = variableLimits.ExistAbstract(varCubePreOutput).getNofSatisfyingAssignments(varCubePreInput);
-        double nofInputsSystemLosing = (initEnv & variableLimits & !((winningPositions & initSys).ExistAbstract(varCubePreOutput))).getNofSatisfyingAssignments(varCubePreInput);
+        double nofInputsSystemLosing = (initEnv & variableLimits.ExistAbstract(varCubePreOutput) & !((winningPositions & initSys).ExistAbstract(varCubePreOutput))).getNofSatisfyingAssignments(varCubePreInput);
         double nofAllowedInitialInputs = (initEnv & variableLimits.ExistAbstract(varCubePreOutput)).getNofSatisfyingAssignments(varCubePreInput);
 
         std::cout << "Number of winning positions: " << nofWPos << " out of " << nofPos << std::endl;
-- 
2.43.0


From 6eece12d39fa61b0cc61672941b8b1f1de3f00b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:59 +0000
Subject: [PATCH 009/103] fix: weakened safety assumptions could contain
 clauses that do not follow from the original ones

---
 src/extensionWeakenSafetyAssumptions.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/extensionWeakenSafetyAssumptions.hpp b/src/extensionWeakenSafetyAssumptions.hpp
index 95783e4..6f924fc 100644
--- a/src/extensionWeakenSafetyAssumptions.hpp
+++ b/src/extensionWeakenSafetyAssumptions.hpp
@@ -130,6 +130,11 @@ public:
             std::vector<int> filteredLiterals;
             BF committedLiterals = mgr.constantFalse();
             for (unsigned int i=0;i<variables.size();i++) {
+                if (thisClause[i]==0) {
+                    // Variable does not occur in the clause
+                    filteredLiterals.push_back(0);
+                    continue;
+                }
                 BF restOfClause = committedLiterals;
                 for (unsigned int j=i+1;j<variables.size();j++) {
                     if (thisClause[j]>0) {
-- 
2.43.0


From 21439594f79998ffb4d4c70e09cc613603e74a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 010/103] fix: weakened safety assumptions kept redundant
 literals

---
 src/extensionWeakenSafetyAssumptions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensionWeakenSafetyAssumptions.hpp b/src/extensionWeakenSafetyAssumptions.hpp
index 6f924fc..f32499d 100644
--- a/src/extensionWeakenSafetyAssumptions.hpp
+++ b/src/extensionWeakenSafetyAssumptions.hpp
@@ -117,9 +117,9 @@ public:
             for (auto it = clausesFoundSoFarInt.begin();it!=clausesFoundSoFarInt.end();it++) {
                 BF thisClauseBF = mgr.constantFalse();
                 for (unsigned int i=0;i<variables.size();i++) {
-                    if (thisClause[i]>0) {
+                    if ((*it)[i]>0) {
                         thisClauseBF |= variables[i];
-                    } else if (thisClause[i]<0) {
+                    } else if ((*it)[i]<0) {
                         thisClauseBF |= !variables[i];
                     }
                 }
-- 
2.43.0


From 136a1c01202f07b330643a42e278db2862a35921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:44 +0000
Subject: [PATCH 011/103] fix: --analyzeAssumptions dropped all safety
 assumptions when analyzing liveness assumptions

---
 src/extensionAnalyzeAssumptions.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/extensionAnalyzeAssumptions.hpp b/src/extensionAnalyzeAssumptions.hpp
index f9941e9..60ad5f6 100644
--- a/src/extensionAnalyzeAssumptions.hpp
+++ b/src/extensionAnalyzeAssumptions.hpp
@@ -376,7 +376,6 @@ protected:
 
             //if (i==1) throw "Aaargh!";
 
-            safetyEnv = mgr.constantTrue();
             livenessAssumptions.clear();
             for (unsigned int j=0;j<oldLivenessAssumptions.size();j++) {
                 if (i!=j) livenessAssumptions.push_back(oldLivenessAssumptions[j]);
-- 
2.43.0


From dfbe0448719f84532148d77a2419471dcb9e4ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:44 +0000
Subject: [PATCH 012/103] fix: --analyzeAssumptions solved the game without any
 liveness assumption

---
 src/extensionAnalyzeAssumptions.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/extensionAnalyzeAssumptions.hpp b/src/extensionAnalyzeAssumptions.hpp
index 60ad5f6..7b49c59 100644
--- a/src/extensionAnalyzeAssumptions.hpp
+++ b/src/extensionAnalyzeAssumptions.hpp
@@ -380,6 +380,8 @@ protected:
             for (unsigned int j=0;j<oldLivenessAssumptions.size();j++) {
                 if (i!=j) livenessAssumptions.push_back(oldLivenessAssumptions[j]);
             }
+            // The synthesis algorithm needs at least one liveness assumption
+            if (livenessAssumptions.empty()) livenessAssumptions.push_back(mgr.constantTrue());
             std::cout << "\"" << livenessEnvPartNames.at(i) << "\" ";
 
             std::vector<std::vector<BF> > newDistances;
-- 
2.43.0


From 0bf5fd6cd54a97342f111f783e59977c78562fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:32 +0000
Subject: [PATCH 013/103] fix: non-strict implication analysis let safety
 guarantees count as violated initially

---
 src/extensionAnalyzeSafetyLivenessInteraction.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/extensionAnalyzeSafetyLivenessInteraction.hpp b/src/extensionAnalyzeSafetyLivenessInteraction.hpp
index e7d0693..d633662 100644
--- a/src/extensionAnalyzeSafetyLivenessInteraction.hpp
+++ b/src/extensionAnalyzeSafetyLivenessInteraction.hpp
@@ -108,6 +108,9 @@ protected:
 
             computeVariableInformation();
 
+            // No safety guarantee has been violated initially
+            initSys &= !variables[varGuaFailPre];
+
             // Construct new spec
             safetyEnv = overallSafetyEnv;
             safetySys = (!variables[varGuaFailPost]) ^ ((!overallSafetySys) | variables[varGuaFailPre]);
-- 
2.43.0


From 43fd26de011849224942053687ae120206ab36f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 014/103] fix: number of steps to falsify the specification
 took disallowed initial inputs into account

---
 src/extensionAnalyzeSafetyLivenessInteraction.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionAnalyzeSafetyLivenessInteraction.hpp b/src/extensionAnalyzeSafetyLivenessInteraction.hpp
index d633662..8501836 100644
--- a/src/extensionAnalyzeSafetyLivenessInteraction.hpp
+++ b/src/extensionAnalyzeSafetyLivenessInteraction.hpp
@@ -154,7 +154,7 @@ protected:
                 winningPositions |= (safetyEnv & (winningPositions.SwapVariables(varVectorPre,varVectorPost) | !safetySys).UnivAbstract(varCubePostOutput)).ExistAbstract(varCubePostInput);
                 round++;
                 if ((roundFoundInitPos==-1) &&
-                        ((!initSys) | (initEnv & winningPositions)).UnivAbstract(varCubePreOutput).ExistAbstract(varCubePreInput).isTrue()) {
+                        (initEnv & ((!initSys) | winningPositions)).UnivAbstract(varCubePreOutput).ExistAbstract(varCubePreInput).isTrue()) {
                     roundFoundInitPos = round;
                 }
             }
-- 
2.43.0


From 6cfbd836e78fb9012668af29c757feb4315c8fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:10 +0000
Subject: [PATCH 015/103] fix: --analyzeInterleaving listed the last output
 variable although it cannot be set early

---
 src/extensionInterleave.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/extensionInterleave.hpp b/src/extensionInterleave.hpp
index 0d44964..7583099 100644
--- a/src/extensionInterleave.hpp
+++ b/src/extensionInterleave.hpp
@@ -201,6 +201,7 @@ public:
                     if (!realizable) {
                         variableTypes[i] = PreOutputAfter;
                         variableTypes[i+1] = PostOutputAfter;
+                        computeVariableInformation();
                     } else {
                         foundOne = true;
                     }
-- 
2.43.0


From d5cca2bef1bcf3812670418bb105180b93c4ea24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:44 +0000
Subject: [PATCH 016/103] fix: interesting runs were printed with flags read
 beyond the end of the flag lists

---
 src/extensionComputeInterestingRunOfTheSystem.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/extensionComputeInterestingRunOfTheSystem.hpp b/src/extensionComputeInterestingRunOfTheSystem.hpp
index 48dba8d..d9a8340 100644
--- a/src/extensionComputeInterestingRunOfTheSystem.hpp
+++ b/src/extensionComputeInterestingRunOfTheSystem.hpp
@@ -162,7 +162,11 @@ public:
             //BF_newDumpDot(*this,nextPosition,NULL,npname.str().c_str());
         }
 
+        // There is no transition from the last position of the trace
         systemGoalsSat.push_back(false);
+        environmentGoalsSat.push_back(false);
+        safetyEnvViolation.push_back(false);
+        safetySysViolation.push_back(false);
 
         //========================
         // Compute variable groups
-- 
2.43.0


From 3c6a10bc5254e268b485fafb8028c0e58ece7d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:44 +0000
Subject: [PATCH 017/103] fix: interesting runs marked goals as reached by a
 different transition than the one taken

---
 src/extensionComputeInterestingRunOfTheSystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionComputeInterestingRunOfTheSystem.hpp b/src/extensionComputeInterestingRunOfTheSystem.hpp
index d9a8340..de8b3db 100644
--- a/src/extensionComputeInterestingRunOfTheSystem.hpp
+++ b/src/extensionComputeInterestingRunOfTheSystem.hpp
@@ -154,7 +154,7 @@ public:
 
             // Compute next position
             assert(nextPosition < safetySys);
-            nextPosition = determinizeRandomized(nextPosition.ExistAbstract(varCubePre).SwapVariables(varVectorPre,varVectorPost),preVars);
+            nextPosition = edge.ExistAbstract(varCubePre).SwapVariables(varVectorPre,varVectorPost);
             trace.push_back(nextPosition);
 
             //std::ostringstream npname;
-- 
2.43.0


From 73e9f8c7a68c829c1021d22e0be10defa66e5f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:44 +0000
Subject: [PATCH 018/103] fix: environment moves in interesting runs could
 violate the safety assumptions

---
 src/extensionComputeInterestingRunOfTheSystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionComputeInterestingRunOfTheSystem.hpp b/src/extensionComputeInterestingRunOfTheSystem.hpp
index de8b3db..6f852d8 100644
--- a/src/extensionComputeInterestingRunOfTheSystem.hpp
+++ b/src/extensionComputeInterestingRunOfTheSystem.hpp
@@ -88,7 +88,7 @@ public:
             BF moves = mgr.constantFalse();
             do {
                 oldWinning = winning;
-                BF newMoves = (((livenessAssumptions[i] | oldWinning.SwapVariables(varVectorPre,varVectorPost)) & nonDeadlockingTransitions) | (!safetySys)).UnivAbstract(varCubePostOutput);
+                BF newMoves = (((livenessAssumptions[i] | oldWinning.SwapVariables(varVectorPre,varVectorPost)) & nonDeadlockingTransitions) | (!safetySys)).UnivAbstract(varCubePostOutput) & safetyEnv;
                 winning = newMoves.ExistAbstract(varCubePostInput);
                 moves |= winning & !oldWinning & newMoves;
             } while (winning!=oldWinning);
-- 
2.43.0


From 360ca4d8d70cca67737f188d89be3fe24cd22f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:44 +0000
Subject: [PATCH 019/103] fix: interesting runs did not recognise constraints
 that allow exactly one transition

---
 src/extensionComputeInterestingRunOfTheSystem.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/extensionComputeInterestingRunOfTheSystem.hpp b/src/extensionComputeInterestingRunOfTheSystem.hpp
index 6f852d8..290a04a 100644
--- a/src/extensionComputeInterestingRunOfTheSystem.hpp
+++ b/src/extensionComputeInterestingRunOfTheSystem.hpp
@@ -129,7 +129,7 @@ public:
             //BF_newDumpDot(*this,currentPosition,"Pre Post",flexname.str().c_str());
 
             // Sys Liveness progress
-            if (edge < livenessGuarantees[systemGoals.back()]) {
+            if (edge <= livenessGuarantees[systemGoals.back()]) {
                 systemGoals.push_back((systemGoals.back() + 1) % livenessGuarantees.size());
                 systemGoalsSat.push_back(true);
             } else {
@@ -139,7 +139,7 @@ public:
             }
 
             // Env Liveness progress
-            if (edge < livenessAssumptions[environmentGoals.back()]) {
+            if (edge <= livenessAssumptions[environmentGoals.back()]) {
                 environmentGoals.push_back((environmentGoals.back() + 1) % livenessAssumptions.size());
                 environmentGoalsSat.push_back(true);
             } else {
@@ -149,11 +149,11 @@ public:
             }
 
             // Violations
-            safetyEnvViolation.push_back(!(edge < safetyEnv));
-            safetySysViolation.push_back(!(edge < safetySys));
+            safetyEnvViolation.push_back(!(edge <= safetyEnv));
+            safetySysViolation.push_back(!(edge <= safetySys));
 
             // Compute next position
-            assert(nextPosition < safetySys);
+            assert(nextPosition <= safetySys);
             nextPosition = edge.ExistAbstract(varCubePre).SwapVariables(varVectorPre,varVectorPost);
             trace.push_back(nextPosition);
 
-- 
2.43.0


From 34f2e1a2780286aacf76f37e947cb655e2d3d920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:44 +0000
Subject: [PATCH 020/103] fix: abstract countertraces took disallowed initial
 inputs into account

---
 src/extensionAbstractWinningTraceGenerator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionAbstractWinningTraceGenerator.hpp b/src/extensionAbstractWinningTraceGenerator.hpp
index c09daa6..cdf56b2 100644
--- a/src/extensionAbstractWinningTraceGenerator.hpp
+++ b/src/extensionAbstractWinningTraceGenerator.hpp
@@ -118,7 +118,7 @@ protected:
                 winningPositions |= (safetyEnv & (winningPositions.SwapVariables(varVectorPre,varVectorPost) | !safetySys).UnivAbstract(varCubePostOutput)).ExistAbstract(varCubePostInput);
                 round++;
                 if ((roundFoundInitPos==-1) &&
-                        ((!initSys) | (initEnv & winningPositions)).UnivAbstract(varCubePreOutput).ExistAbstract(varCubePreInput).isTrue()) {
+                        (initEnv & ((!initSys) | winningPositions)).UnivAbstract(varCubePreOutput).ExistAbstract(varCubePreInput).isTrue()) {
                     roundFoundInitPos = round;
                 }
             }
-- 
2.43.0


From db6a63905681cc0ae500aace57678b35c436689b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:45 +0000
Subject: [PATCH 021/103] fix: interactive sessions on unrealizable
 specifications used guarantee numbers as indices into the assumption
 strategies

---
 src/extensionInteractiveStrategy.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index 9c56b3a..a7e5c3a 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -260,7 +260,7 @@ public:
                 // Analyse if it is part of a possible strategy
                 std::cout << "- The transition is a possible transition in a strategy for the following goals: ";
                 foundOne = false;
-                for (unsigned int i=0;i<livenessGuarantees.size();i++) {
+                for (unsigned int i=0;i<positionalStrategiesForTheIndividualGoals.size();i++) {
                     if (!(positionalStrategiesForTheIndividualGoals[i] & from & to).isFalse()) {
                         if (foundOne) std::cout << ", ";
                         foundOne = true;
@@ -297,7 +297,9 @@ public:
                 currentPosition = from;
             } else if (command=="MOVE") {
 
-                if (currentPosition == mgr.constantFalse()) {
+                if (!realizable) {
+                    std::cout << "Error: MOVE is only supported for realizable specifications." << std::endl;
+                } else if (currentPosition == mgr.constantFalse()) {
                     std::cout << "Error: The current position is undefined. Use SETPOS prior to calling MOVE." << std::endl;
                 } else {
 
@@ -484,6 +486,7 @@ public:
                 std::cout.flush();
             } else if (command=="XMAKETRANSRANDOM") {
                 std::cout << "\n"; // Get rid of the prompt
+                if (!realizable) throw "Error: XMAKETRANSRANDOM is only supported for realizable specifications";
                 BF postInput = mgr.constantTrue();
                 for (unsigned int i=0;i<variables.size();i++) {
                     if (doesVariableInheritType(i,PostInput)) {
-- 
2.43.0


From 7224004f45faa1407dcd833f1e1c9d775f7f2393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:45 +0000
Subject: [PATCH 022/103] fix: interactive sessions without a winning initial
 position aborted on STARTPOS or reported a made-up one

---
 src/extensionInteractiveStrategy.hpp | 59 ++++++++++++++++------------
 1 file changed, 33 insertions(+), 26 deletions(-)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index a7e5c3a..329c524 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -157,19 +157,22 @@ public:
                 return;
             } else if (command=="STARTPOS") {
                 BF initialPosition = winningPositions & initEnv & initSys;
-                assert(!(initialPosition.isFalse()));
-                initialPosition = determinize(initialPosition,preVars);
-                for (unsigned int i=0;i<variables.size();i++) {
-                    if (doesVariableInheritType(i, Pre)) {
-                        std::cout << " - " << variableNames[i] << ": ";
-                        if ((variables[i] & initialPosition).isFalse()) {
-                            std::cout << "0\n";
-                        } else {
-                            std::cout << "1\n";
+                if (initialPosition.isFalse()) {
+                    std::cout << "Error: There is no winning initial position.\n";
+                } else {
+                    initialPosition = determinize(initialPosition,preVars);
+                    for (unsigned int i=0;i<variables.size();i++) {
+                        if (doesVariableInheritType(i, Pre)) {
+                            std::cout << " - " << variableNames[i] << ": ";
+                            if ((variables[i] & initialPosition).isFalse()) {
+                                std::cout << "0\n";
+                            } else {
+                                std::cout << "1\n";
+                            }
                         }
                     }
+                    currentPosition = initialPosition;
                 }
-                currentPosition = initialPosition;
             } else if (command=="CHECKTRANS") {
 
                 std::cout << "From: \n";
@@ -566,27 +569,31 @@ public:
             } else if (command=="XGETINIT") {
                 std::cout << "\n"; // Get rid of the prompt
                 BF initialPosition = winningPositions & initEnv & initSys;
-                initialPosition = determinize(initialPosition,preVars);
-                for (unsigned int i=0;i<variables.size();i++) {
-                    if (doesVariableInheritType(i,PreInput)) {
-                        if ((variables[i] & initialPosition).isFalse()) {
-                            std::cout << "0";
-                        } else {
-                            std::cout << "1";
+                if (initialPosition.isFalse()) {
+                    std::cout << "ERROR" << std::endl; // Flushes, too.
+                } else {
+                    initialPosition = determinize(initialPosition,preVars);
+                    for (unsigned int i=0;i<variables.size();i++) {
+                        if (doesVariableInheritType(i,PreInput)) {
+                            if ((variables[i] & initialPosition).isFalse()) {
+                                std::cout << "0";
+                            } else {
+                                std::cout << "1";
+                            }
                         }
                     }
-                }
-                for (unsigned int i=0;i<variables.size();i++) {
-                    if (doesVariableInheritType(i,PreOutput)) {
-                        if ((variables[i] & initialPosition).isFalse()) {
-                            std::cout << "0";
-                        } else {
-                            std::cout << "1";
+                    for (unsigned int i=0;i<variables.size();i++) {
+                        if (doesVariableInheritType(i,PreOutput)) {
+                            if ((variables[i] & initialPosition).isFalse()) {
+                                std::cout << "0";
+                            } else {
+                                std::cout << "1";
+                            }
                         }
                     }
+                    std::cout << ",0" << std::endl; // Flushes, too.
+                    currentPosition = initialPosition;
                 }
-                std::cout << ",0" << std::endl; // Flushes, too.
-                currentPosition = initialPosition;
             } else if (command=="XCOMPLETEINIT") {
 
                 // This command takes a set of forced values and completes it such that
-- 
2.43.0


From 10dcc2f1ac82c669f59c13eba4b72725a11e15fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:45 +0000
Subject: [PATCH 023/103] fix: XGETINIT announced goal 0 but kept the current
 goal

---
 src/extensionInteractiveStrategy.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index 329c524..3c1eed5 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -593,6 +593,7 @@ public:
                     }
                     std::cout << ",0" << std::endl; // Flushes, too.
                     currentPosition = initialPosition;
+                    currentLivenessGuarantee = 0;
                 }
             } else if (command=="XCOMPLETEINIT") {
 
-- 
2.43.0


From f77faa1e53761e8151bcd75bba13b13e1ba63e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:45 +0000
Subject: [PATCH 024/103] fix: MOVE lost the value of an input that was given
 as neither 0 nor 1

---
 src/extensionInteractiveStrategy.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index 3c1eed5..39ad725 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -344,6 +344,7 @@ public:
                                     } else {
                                         std::cout << "    -> Value != 0 or 1. Assuming 1.\n";
                                         to &= variables[i];
+                                        nextPosition &= variables[i];
                                     }
                                 }
                             }
-- 
2.43.0


From b320c08d46b9ac8f38102c9940d6b7891ca4ea9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:45 +0000
Subject: [PATCH 025/103] fix: XMAKETRANS made up a transition where the
 strategy has none

---
 src/extensionInteractiveStrategy.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index 39ad725..6f51331 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -443,13 +443,12 @@ public:
                         }
                     }
                 }
-                BF trans = currentPosition & postInput & safetyEnv;
+                BF trans = currentPosition & postInput & safetyEnv & positionalStrategiesForTheIndividualGoals[currentLivenessGuarantee];
                 if (trans.isFalse()) {
                     std::cout << "ERROR\n";
                     if (currentPosition.isFalse()) {
                     }
                 } else {
-                    trans &= positionalStrategiesForTheIndividualGoals[currentLivenessGuarantee];
 
                     // Switching goals
                     BF newCombination = determinize(trans,postVars);
@@ -505,13 +504,12 @@ public:
                         }
                     }
                 }
-                BF trans = currentPosition & postInput & safetyEnv;
+                BF trans = currentPosition & postInput & safetyEnv & positionalStrategiesForTheIndividualGoals[currentLivenessGuarantee];
                 if (trans.isFalse()) {
                     std::cout << "ERROR\n";
                     if (currentPosition.isFalse()) {
                     }
                 } else {
-                    trans &= positionalStrategiesForTheIndividualGoals[currentLivenessGuarantee];
 
                     // Switching goals
                     BF newCombination = determinizeRandomized(trans,postVars);
-- 
2.43.0


From 8e062a4ba12d147eac4363b3113641a5480fe4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:12 +0000
Subject: [PATCH 026/103] fix: interactive sessions went into an infinite loop
 after a malformed number

---
 src/extensionInteractiveStrategy.hpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index 6f51331..ec40762 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -5,6 +5,7 @@
 #include "BF.h"
 #include "variableTypes.hpp"
 #include <iostream>
+#include <sstream>
 #include "gr1context.hpp"
 
 
@@ -43,6 +44,15 @@ protected:
     using T::varVectorPost;
     using T::doesVariableInheritType;
 
+    // Reads a number from the standard input. The whole next word is consumed even if it is not a number.
+    template<class N> static bool readNumber(N &value) {
+        std::string word;
+        std::cin >> word;
+        std::istringstream is(word);
+        is >> value;
+        return !is.fail();
+    }
+
 
 public:
     static GR1Context* makeInstance(std::list<std::string> &filenames) {
@@ -182,8 +192,7 @@ public:
                         std::cout << " - " << variableNames[i] << ": ";
                         std::cout.flush();
                         int value;
-                        std::cin >> value;
-                        if (std::cin.fail()) {
+                        if (!readNumber(value)) {
                             std::cout << "    -> Error reading value. Assuming 0.\n";
                             value = 0;
                         }
@@ -205,8 +214,7 @@ public:
                         std::cout << " - " << variableNames[i] << ": ";
                         std::cout.flush();
                         int value;
-                        std::cin >> value;
-                        if (std::cin.fail()) {
+                        if (!readNumber(value)) {
                             std::cout << "    -> Error reading value. Assuming 0.\n";
                             value = 0;
                         }
@@ -282,8 +290,7 @@ public:
                         std::cout << " - " << variableNames[i] << ": ";
                         std::cout.flush();
                         int value;
-                        std::cin >> value;
-                        if (std::cin.fail()) {
+                        if (!readNumber(value)) {
                             std::cout << "    -> Error reading value. Assuming 0.\n";
                             value = 0;
                         }
@@ -309,8 +316,7 @@ public:
                     std::cout << "Guarantee No.: ";
                     std::cout.flush();
                     unsigned int guarantee;
-                    std::cin >> guarantee;
-                    if (std::cin.fail()) {
+                    if (!readNumber(guarantee)) {
                         std::cout << "    -> Error reading value. Aborting \n";
                     } else if (guarantee>=livenessGuarantees.size()) {
                         std::cout << "    -> Number too large. Aborting \n";
@@ -330,8 +336,7 @@ public:
                                     std::cout << " - " << variableNames[i] << ": ";
                                     std::cout.flush();
                                     int value;
-                                    std::cin >> value;
-                                    if (std::cin.fail()) {
+                                    if (!readNumber(value)) {
                                         std::cout << "    -> Error reading value. Assuming 0.\n";
                                         value = 0;
                                     }
-- 
2.43.0


From edd07f75afe66a17b853b9d7a8c835c0eee67a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:12 +0000
Subject: [PATCH 027/103] fix: XSTRATEGYTRANSITION used goal numbers from the
 input without checking them

---
 src/extensionInteractiveStrategy.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index ec40762..c9a7871 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -862,8 +862,12 @@ public:
                 // Parse current liveness goal numbers
                 unsigned int livenessAssumption;
                 unsigned int livenessGuarantee;
-                std::cin >> livenessAssumption;
-                std::cin >> livenessGuarantee;
+                bool goalNumbersRead = readNumber(livenessAssumption);
+                goalNumbersRead &= readNumber(livenessGuarantee);
+                if (!goalNumbersRead || (livenessAssumption>=livenessAssumptions.size()) || (livenessGuarantee>=livenessGuarantees.size())) {
+                    std::cout << "ERROR" << std::endl;
+                    continue;
+                }
 
                 std::cerr << "Starting from liveness assumption/guarantee " << livenessAssumption << "/" << livenessGuarantee << std::endl;
 
-- 
2.43.0


From 6169bbbcb5e61d50f6d22c5f9d90c1013eaa7d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:12 +0000
Subject: [PATCH 028/103] fix: XSTRATEGYTRANSITION did not advance a goal that
 is satisfied by exactly one transition

---
 src/extensionInteractiveStrategy.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index c9a7871..d46e83e 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -1071,8 +1071,8 @@ public:
                             std::cout << std::endl;
 
                             // Print new assumption and guarantee goal counters
-                            if (allSoFar < livenessAssumptions[livenessAssumption]) livenessAssumption++;
-                            if (allSoFar < livenessGuarantees[livenessGuarantee]) livenessGuarantee++;
+                            if (allSoFar <= livenessAssumptions[livenessAssumption]) livenessAssumption++;
+                            if (allSoFar <= livenessGuarantees[livenessGuarantee]) livenessGuarantee++;
                             std::cout << livenessAssumption % livenessAssumptions.size() << std::endl;
                             std::cout << livenessGuarantee % livenessGuarantees.size() << std::endl;
 
-- 
2.43.0


From 1bb32be9132a0979c74d9ce512353c4aad6f4317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:37 +0000
Subject: [PATCH 029/103] fix: interactive sessions read uninitialised
 characters at the end of the input

---
 src/extensionInteractiveStrategy.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/extensionInteractiveStrategy.hpp b/src/extensionInteractiveStrategy.hpp
index d46e83e..2e12799 100644
--- a/src/extensionInteractiveStrategy.hpp
+++ b/src/extensionInteractiveStrategy.hpp
@@ -437,7 +437,7 @@ public:
                 BF postInput = mgr.constantTrue();
                 for (unsigned int i=0;i<variables.size();i++) {
                     if (doesVariableInheritType(i,PostInput)) {
-                        char c;
+                        char c = 0;
                         std::cin >> c;
                         if (c=='0') {
                             postInput &= !variables[i];
@@ -498,7 +498,7 @@ public:
                 BF postInput = mgr.constantTrue();
                 for (unsigned int i=0;i<variables.size();i++) {
                     if (doesVariableInheritType(i,PostInput)) {
-                        char c;
+                        char c = 0;
                         std::cin >> c;
                         if (c=='0') {
                             postInput &= !variables[i];
@@ -613,7 +613,7 @@ public:
                 for (const VariableType &type: {PreInput, PreOutput}) {
                     for (unsigned int i=0;i<variables.size();i++) {
                         if (doesVariableInheritType(i,type)) {
-                            char c;
+                            char c = 0;
                             std::cin >> c;
                             if (c=='0') {
                                 forced &= !variables[i];
@@ -631,7 +631,7 @@ public:
                 BF possibleInitialPositions = initEnv & forced;
 
                 // There exists an allowed initial position
-                char result[preVars.size()];
+                std::vector<char> result(preVars.size());
                 unsigned int resultPtr = 0;
                 for (const VariableType &type: {PreInput, PreOutput}) {
                     for (unsigned int i=0;i<variables.size();i++) {
@@ -826,7 +826,7 @@ public:
                 for (const VariableType &type: {PreInput, PreOutput}) {
                     for (unsigned int i=0;i<variables.size();i++) {
                         if (doesVariableInheritType(i,type)) {
-                            char c;
+                            char c = 0;
                             std::cin >> c;
                             if (c=='0') {
                                 startingPoint &= !variables[i];
@@ -844,7 +844,7 @@ public:
                 for (const VariableType &type: {PostInput, PostOutput}) {
                     for (unsigned int i=0;i<variables.size();i++) {
                         if (doesVariableInheritType(i,type)) {
-                            char c;
+                            char c = 0;
                             std::cin >> c;
                             if (c=='0') {
                                 forced &= !variables[i];
@@ -885,7 +885,7 @@ public:
                 } else {
 
                     // So there exist transitions. Prepare result array
-                    char result[preVars.size()];
+                    std::vector<char> result(preVars.size());
                     unsigned int resultPtr = 0;
                     for (const VariableType &type: {PostInput, PostOutput}) {
                         for (unsigned int i=0;i<variables.size();i++) {
-- 
2.43.0


From 08c278815bb53ea7396069e0c8e659b2d14a38b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:11 +0000
Subject: [PATCH 030/103] fix: recovery transitions of cost-optimal strategies
 could violate the safety guarantees

---
 src/extensionTwoDimensionalCost.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/extensionTwoDimensionalCost.hpp b/src/extensionTwoDimensionalCost.hpp
index 55b1caa..96c14fd 100644
--- a/src/extensionTwoDimensionalCost.hpp
+++ b/src/extensionTwoDimensionalCost.hpp
@@ -724,6 +724,12 @@ public:
 
         } // Iteration through all liveness goals completed
 
+        // Transitions for next inputs that the environment safety assumptions rule out must not violate the safety
+        // guarantees or leave the winning positions either.
+        for (auto it = strategyDumpingData.begin();it!=strategyDumpingData.end();it++) {
+            it->second &= safetySys & winningPositions.SwapVariables(varVectorPre,varVectorPost);
+        }
+
 
     }
 
-- 
2.43.0


From 9fc62b84f3084a46bf64a1f58b6f022d99ba3c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:30 +0000
Subject: [PATCH 031/103] fix: --nonDeterministicMotion ignored the choice of
 the other output variables

---
 src/extensionNondeterministicMotion.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/extensionNondeterministicMotion.hpp b/src/extensionNondeterministicMotion.hpp
index 862193c..b3e50ed 100644
--- a/src/extensionNondeterministicMotion.hpp
+++ b/src/extensionNondeterministicMotion.hpp
@@ -36,6 +36,7 @@ protected:
     SlugsVarCube varCubePreMotionState{PreMotionState,this};
     SlugsVarCube varCubePostMotionState{PostMotionState,this};
     SlugsVarCube varCubePostControllerOutput{PostMotionControlOutput,this};
+    SlugsVarCube varCubePostOtherOutput{PostOtherOutput,this};
 
 public:
     static GR1Context* makeInstance(std::list<std::string> &filenames) {
@@ -416,7 +417,7 @@ public:
                             //BF_newDumpDot(*this,foundPaths,NULL,"/tmp/foundPathsPostRobot.dot");
 
                             // Update the inner-most fixed point with the result of applying the enforcable predecessor operator
-                            nu0.update(safetyEnv.Implies(foundPaths).ExistAbstract(varCubePostControllerOutput).UnivAbstract(varCubePostInput));
+                            nu0.update(safetyEnv.Implies(foundPaths).ExistAbstract(varCubePostControllerOutput).ExistAbstract(varCubePostOtherOutput).UnivAbstract(varCubePostInput));
                         }
 
                         // Update the set of positions that are winning for some liveness assumption
-- 
2.43.0


From be42129962d8fcf140cceb9d93223ae03858fe9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 032/103] fix: motion-state conditions in ENV_INIT made
 --nonDeterministicMotion report a wrong verdict

---
 src/extensionNondeterministicMotion.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/extensionNondeterministicMotion.hpp b/src/extensionNondeterministicMotion.hpp
index b3e50ed..63ce56c 100644
--- a/src/extensionNondeterministicMotion.hpp
+++ b/src/extensionNondeterministicMotion.hpp
@@ -449,15 +449,13 @@ public:
         BF result;
         if (initSpecialRoboticsSemantics) {
             if (!initSys.isTrue()) std::cerr << "Warning: Initialisation guarantees have been given although these are ignored in semantics-for-robotics mode! \n";
-            result = initEnv.Implies(winningPositions.UnivAbstract(varCubePreOutput)).UnivAbstract(varCubePreInput);
+            result = initEnv.Implies(winningPositions).UnivAbstract(varCubePreOutput).UnivAbstract(varCubePreInput);
 
         } else {
-            result = initEnv.Implies((winningPositions & initSys).ExistAbstract(varCubePreOutput)).UnivAbstract(varCubePreInput);
+            // The initialisation assumptions may also refer to motion states and other outputs
+            result = initEnv.ExistAbstract(varCubePreOutput).Implies((winningPositions & initEnv & initSys).ExistAbstract(varCubePreOutput)).UnivAbstract(varCubePreInput);
         }
 
-        // Get rid of the PreMotionState
-        result = result.ExistAbstract(varCubePreMotionState);
-
         // Check if the result is well-defind. Might fail after an incorrect modification of the above algorithm
         if (!result.isConstant()) {
             BF_newDumpDot(*this,result,NULL,"/tmp/isRealizable.dot");
-- 
2.43.0


From b5ac7efb51aaba6a6a6992601d73d958a800cd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:58 +0000
Subject: [PATCH 033/103] fix: --nonDeterministicMotion failed for safety
 assumptions over motion states or other outputs

---
 src/extensionNondeterministicMotion.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/extensionNondeterministicMotion.hpp b/src/extensionNondeterministicMotion.hpp
index 63ce56c..cecd75a 100644
--- a/src/extensionNondeterministicMotion.hpp
+++ b/src/extensionNondeterministicMotion.hpp
@@ -365,6 +365,9 @@ public:
         // Compute first which moves by the robot are actually allowed.
         BF robotAllowedMoves = robotBDD.ExistAbstract(varCubePostMotionState);
 
+        // Next inputs that do not violate the safety assumptions on their own
+        BF allowedInputs = safetyEnv.ExistAbstract(varCubePostMotionState).ExistAbstract(varCubePostOtherOutput);
+
         // The greatest fixed point - called "Z" in the GR(1) synthesis paper
         BFFixedPoint nu2(mgr.constantTrue());
 
@@ -413,11 +416,12 @@ public:
                             foundPaths = livetransitions | (nu0.getValue().SwapVariables(varVectorPre,varVectorPost) & !(livenessAssumptions[i]));
                             foundPaths &= safetySys;
                             //BF_newDumpDot(*this,foundPaths,NULL,"/tmp/foundPathsPreRobot.dot");
-                            foundPaths = robotAllowedMoves & robotBDD.Implies(foundPaths).UnivAbstract(varCubePostMotionState);
+                            // The safety assumptions may also refer to the successor motion state (and the other outputs)
+                            foundPaths = robotAllowedMoves & (robotBDD & safetyEnv).Implies(foundPaths).UnivAbstract(varCubePostMotionState);
                             //BF_newDumpDot(*this,foundPaths,NULL,"/tmp/foundPathsPostRobot.dot");
 
                             // Update the inner-most fixed point with the result of applying the enforcable predecessor operator
-                            nu0.update(safetyEnv.Implies(foundPaths).ExistAbstract(varCubePostControllerOutput).ExistAbstract(varCubePostOtherOutput).UnivAbstract(varCubePostInput));
+                            nu0.update(allowedInputs.Implies(foundPaths).ExistAbstract(varCubePostControllerOutput).ExistAbstract(varCubePostOtherOutput).UnivAbstract(varCubePostInput));
                         }
 
                         // Update the set of positions that are winning for some liveness assumption
-- 
2.43.0


From 18a5085f5cd6c2ac2a907ea262165a4c6d961a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 034/103] fix: unreadable or unsuitable BDD files crashed slugs

---
 lib/cudd-3.0.0/dddmp/dddmpLoad.c           | 10 ++++++++++
 src/BFAbstractionLibrary/BFCuddManager.cpp |  9 ++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/lib/cudd-3.0.0/dddmp/dddmpLoad.c b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
index d00502e..a3e6baf 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpLoad.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
@@ -411,6 +411,9 @@ Dddmp_cuddHeaderLoad (
 
   Hdr = DddmpBddReadHeader (NULL, fp);
 
+  Dddmp_CheckAndGotoLabel (Hdr==NULL, "Error reading header.",
+    failure);
+
   Dddmp_CheckAndGotoLabel (Hdr->nnodes==0, "Zero number of nodes.",
     failure);
 
@@ -649,6 +652,9 @@ DddmpCuddDdArrayLoad (
 
   Hdr = DddmpBddReadHeader (NULL, fp);
 
+  Dddmp_CheckAndGotoLabel (Hdr==NULL, "Error reading header.",
+    failure);
+
   Dddmp_CheckAndGotoLabel (Hdr->nnodes==0, "Zero number of nodes.",
     failure);
 
@@ -836,6 +842,8 @@ DddmpCuddDdArrayLoad (
       break;
     case DDDMP_VAR_COMPOSEIDS:
       for (i=0; i<Hdr->nsuppvars; i++) {
+        Dddmp_CheckAndGotoLabel (Hdr->ids[i]<0 || Hdr->ids[i]>=nddvars ||
+          varcomposeids[Hdr->ids[i]]<0, "Unexpected variable id.", failure);
         convertids[permsupport[i]] = varcomposeids[Hdr->ids[i]];
       }
       break;
@@ -1472,6 +1480,8 @@ DddmpFreeHeader (
   Dddmp_Hdr_t *Hdr   /* IN: pointer to header */
   )
 {
+  if (Hdr == NULL) return;
+
   DDDMP_FREE (Hdr->ver);
   DDDMP_FREE (Hdr->dd);
   DddmpStrArrayFree (Hdr->orderedVarNames, Hdr->nVars);
diff --git a/src/BFAbstractionLibrary/BFCuddManager.cpp b/src/BFAbstractionLibrary/BFCuddManager.cpp
index 094e486..9e98dd2 100644
--- a/src/BFAbstractionLibrary/BFCuddManager.cpp
+++ b/src/BFAbstractionLibrary/BFCuddManager.cpp
@@ -139,13 +139,16 @@ BFBdd BFBddManager::readBDDFromFile(const char *filename, std::vector<BFBdd> &va
         throw std::runtime_error(os.str().c_str());
     }
 
-    int *idMatcher = new int[vars.size()];
+    // The loader expects one entry per variable in the manager
+    std::vector<int> idMatcher(Cudd_ReadSize(mgr),-1);
     for (unsigned int i=0;i<vars.size();i++) {
         idMatcher[i] = vars[i].readNodeIndex();
     }
-    DdNode *node = Dddmp_cuddBddLoad(mgr, DDDMP_VAR_COMPOSEIDS, NULL, NULL, idMatcher, DDDMP_MODE_DEFAULT,NULL,file);
+    DdNode *node = Dddmp_cuddBddLoad(mgr, DDDMP_VAR_COMPOSEIDS, NULL, NULL, idMatcher.data(), DDDMP_MODE_DEFAULT,NULL,file);
     fclose(file);
-    delete[] idMatcher;
+    if (node == NULL) {
+        throw std::runtime_error(std::string("The file '") + filename + "' does not contain a BDD over the expected variables.");
+    }
     Cudd_Deref(node);
     return BFBdd(this,node);   
 }
-- 
2.43.0


From 8921e567bbf222fe250322b3e3f4dffbfed7d33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:40 +0000
Subject: [PATCH 035/103] fix: --computeIncompleteInformationEstimator aborted
 on dots in names of estimated variables without '@'

---
 src/extensionIncompleteInformationEstimatorSynthesis.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionIncompleteInformationEstimatorSynthesis.hpp b/src/extensionIncompleteInformationEstimatorSynthesis.hpp
index f3bccec..7b05555 100644
--- a/src/extensionIncompleteInformationEstimatorSynthesis.hpp
+++ b/src/extensionIncompleteInformationEstimatorSynthesis.hpp
@@ -425,7 +425,7 @@ protected:
                     for (unsigned int simulatedVar=0;simulatedVar<variables.size();simulatedVar++) {
                         std::string simulatedVarSuffix = variableNames[simulatedVar].substr(variableNames[simulatedVar].find("@")+1,std::string::npos);
                         std::string simulatedVarPrefix = variableNames[simulatedVar].substr(0,variableNames[simulatedVar].find("@"));
-                        if ((simulatedVarSuffix.find(".")!=std::string::npos) && (simulatedVar!=referenceVar) && doesVariableInheritType(simulatedVar,EstimationPost)) {
+                        if ((variableNames[simulatedVar].find("@")!=std::string::npos) && (simulatedVarSuffix.find(".")!=std::string::npos) && (simulatedVar!=referenceVar) && doesVariableInheritType(simulatedVar,EstimationPost)) {
 
                             // Parse Min/Max of the reference variable
                             unsigned int simulatedVarMin;
-- 
2.43.0


From 7d636837ce4329c76b32c12e19dbe5b072452ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:25 +0000
Subject: [PATCH 036/103] fix: the structured slugs compiler rejected the
 documented operator '^'

---
 tools/StructuredSlugsParser/compiler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/StructuredSlugsParser/compiler.py b/tools/StructuredSlugsParser/compiler.py
index e8d3f6b..4cef0b2 100755
--- a/tools/StructuredSlugsParser/compiler.py
+++ b/tools/StructuredSlugsParser/compiler.py
@@ -412,6 +412,11 @@ def parseSimpleFormula(tree, isPrimed):
         for a in tree[2:]:
             ret = ["|"]+ret+parseSimpleFormula(a,isPrimed)
         return ret
+    if (tree[0]=="Xor"):
+        ret = parseSimpleFormula(tree[1],isPrimed)
+        for a in tree[2:]:
+            ret = ["^"]+ret+parseSimpleFormula(a,isPrimed)
+        return ret
     if (tree[0]=="UnaryFormula"):
         if tree[1][0]=="NotOperator":
             return ["!"]+parseSimpleFormula(tree[2],isPrimed)
-- 
2.43.0


From 29218710dc22968db811ff803baeaa28286fcc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:25 +0000
Subject: [PATCH 037/103] fix: the structured slugs compiler failed while
 reporting an incomplete formula

---
 tools/StructuredSlugsParser/compiler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/StructuredSlugsParser/compiler.py b/tools/StructuredSlugsParser/compiler.py
index 4cef0b2..d61bd97 100755
--- a/tools/StructuredSlugsParser/compiler.py
+++ b/tools/StructuredSlugsParser/compiler.py
@@ -190,9 +190,9 @@ def flatten_as_much_as_possible(tree):
 # =====================================================
 def printTree(tree,depth=0):
     if isinstance(tree,str):
-        print >>sys.stderr," "*depth+tree
+        print(" "*depth+tree,file=sys.stderr)
     else:
-        print >>sys.stderr," "*depth+tree[0]
+        print(" "*depth+tree[0],file=sys.stderr)
         for a in tree[1:]:
             printTree(a,depth+2)
 
@@ -210,7 +210,7 @@ def parseLTL(ltlTxt,reasonForNotBeingASlugsFormula):
     except p.ParseErrors as exception:
         for t,e in exception.errors:
             if t[0] == p.EOF:
-                print >>sys.stderr, "Formula end not expected here"
+                print("Formula end not expected here",file=sys.stderr)
                 continue
 
             found = repr(t[0])
-- 
2.43.0


From ab232192ce7e95559bb9da06b2754f7b9ecc7c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:25 +0000
Subject: [PATCH 038/103] fix: the structured slugs compiler did not terminate
 on comparisons with variables that can be negative

---
 tools/StructuredSlugsParser/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/StructuredSlugsParser/compiler.py b/tools/StructuredSlugsParser/compiler.py
index d61bd97..a382586 100755
--- a/tools/StructuredSlugsParser/compiler.py
+++ b/tools/StructuredSlugsParser/compiler.py
@@ -326,6 +326,8 @@ def addMinimumValueToAllVariables(tree):
         (minimum,maximum) = numberAPLimits[apName]
         if minimum==0:
             return tree
+        elif minimum<0:
+            raise Exception("Computations with variables that have a negative minimal value are currently unsupported: "+apName)
         else:
             return ("NumberExpression",tree,("AdditionOperator",),("numeral",str(minimum)))
     elif tree[0] in p.terminals:
-- 
2.43.0


From 5d8db9211fcbd5f9812312dc730dd9a8641667ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:25 +0000
Subject: [PATCH 039/103] fix: the structured slugs compiler passed on
 malformed lines with a trailing '!'

---
 tools/StructuredSlugsParser/compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/StructuredSlugsParser/compiler.py b/tools/StructuredSlugsParser/compiler.py
index a382586..1195d05 100755
--- a/tools/StructuredSlugsParser/compiler.py
+++ b/tools/StructuredSlugsParser/compiler.py
@@ -471,7 +471,8 @@ def isValidRecursiveSlugsProperty(tokens):
                 return (False,"Rejected part due to stack underflow")
             stacksize -= 1
         elif currentToken=="!":
-            pass
+            if stacksize<1:
+                return (False,"Rejected part due to stack underflow")
         elif currentToken=="1" or currentToken=="0":
             stacksize += 1
         else:
-- 
2.43.0


From 9093e4e91cff40b89c68209e1bf904c4c02308f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:23 +0000
Subject: [PATCH 040/103] fix: read errors were treated as the end of the input
 file

---
 src/extensionAnalyzeAssumptions.hpp                      | 1 +
 src/extensionAnalyzeInitialPositions.hpp                 | 1 +
 src/extensionIROSfastslow.hpp                            | 1 +
 src/extensionIncompleteInformationEstimatorSynthesis.hpp | 1 +
 src/extensionNondeterministicMotion.hpp                  | 1 +
 src/extensionTwoDimensionalCost.hpp                      | 1 +
 src/synthesisContextBasics.cpp                           | 1 +
 7 files changed, 7 insertions(+)

diff --git a/src/extensionAnalyzeAssumptions.hpp b/src/extensionAnalyzeAssumptions.hpp
index 7b49c59..23bde02 100644
--- a/src/extensionAnalyzeAssumptions.hpp
+++ b/src/extensionAnalyzeAssumptions.hpp
@@ -161,6 +161,7 @@ protected:
                 }
             }
         }
+        if (inFile.bad()) throw "Error: Failed to read the input file";
 
         // Check if variable names have been used twice
         std::set<std::string> variableNameSet(variableNames.begin(),variableNames.end());
diff --git a/src/extensionAnalyzeInitialPositions.hpp b/src/extensionAnalyzeInitialPositions.hpp
index 53f3216..814eb8f 100644
--- a/src/extensionAnalyzeInitialPositions.hpp
+++ b/src/extensionAnalyzeInitialPositions.hpp
@@ -359,6 +359,7 @@ public:
                 }
             }
         }
+        if (inFile.bad()) throw "Error: Failed to read the input file";
 
         // Check if variable names have been used twice
         std::set<std::string> variableNameSet(variableNames.begin(),variableNames.end());
diff --git a/src/extensionIROSfastslow.hpp b/src/extensionIROSfastslow.hpp
index 50b81ad..2cf6e08 100644
--- a/src/extensionIROSfastslow.hpp
+++ b/src/extensionIROSfastslow.hpp
@@ -189,6 +189,7 @@ void init(std::list<std::string> &filenames) {
             }
         }
     }
+    if (inFile.bad()) throw "Error: Failed to read the input file";
 
     // Check if variable names have been used twice
     std::set<std::string> variableNameSet(variableNames.begin(),variableNames.end());
diff --git a/src/extensionIncompleteInformationEstimatorSynthesis.hpp b/src/extensionIncompleteInformationEstimatorSynthesis.hpp
index 7b05555..ebd54c9 100644
--- a/src/extensionIncompleteInformationEstimatorSynthesis.hpp
+++ b/src/extensionIncompleteInformationEstimatorSynthesis.hpp
@@ -145,6 +145,7 @@ protected:
                 }
             }
         }
+        if (inFile.bad()) throw "Error: Failed to read the input file";
 
         // Check if variable names have been used twice
         std::set<std::string> variableNameSet(variableNames.begin(),variableNames.end());
diff --git a/src/extensionNondeterministicMotion.hpp b/src/extensionNondeterministicMotion.hpp
index cecd75a..ec7e74e 100644
--- a/src/extensionNondeterministicMotion.hpp
+++ b/src/extensionNondeterministicMotion.hpp
@@ -335,6 +335,7 @@ public:
                 }
             }
         }
+        if (inFile.bad()) throw "Error: Failed to read the input file";
 
         std::vector<BF> varsBDDread;
         // Invert all order to get the least significant bit first
diff --git a/src/extensionTwoDimensionalCost.hpp b/src/extensionTwoDimensionalCost.hpp
index 96c14fd..dfb36b6 100644
--- a/src/extensionTwoDimensionalCost.hpp
+++ b/src/extensionTwoDimensionalCost.hpp
@@ -209,6 +209,7 @@ public:
                 }
             }
         }
+        if (inFile.bad()) throw "Error: Failed to read the input file";
     }
 
     /**
diff --git a/src/synthesisContextBasics.cpp b/src/synthesisContextBasics.cpp
index d97ee7d..683b78e 100644
--- a/src/synthesisContextBasics.cpp
+++ b/src/synthesisContextBasics.cpp
@@ -222,6 +222,7 @@ void GR1Context::init(std::list<std::string> &filenames) {
             }
         }
     }
+    if (inFile.bad()) throw "Error: Failed to read the input file";
 
     // Check if variable names have been used twice
     std::set<std::string> variableNameSet(variableNames.begin(),variableNames.end());
-- 
2.43.0


From 335f1155aff287d13157e34f81a94f88dc33f59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:39 +0000
Subject: [PATCH 041/103] fix: results that could not be written completely
 were not reported

---
 src/BFAbstractionLibrary/BFCuddManager.cpp      | 2 +-
 src/extensionExtractExplicitCounterstrategy.hpp | 2 +-
 src/extensionExtractExplicitStrategy.hpp        | 2 +-
 src/extensionPermissiveExplicitStrategy.hpp     | 2 +-
 src/main.cpp                                    | 2 ++
 5 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/BFAbstractionLibrary/BFCuddManager.cpp b/src/BFAbstractionLibrary/BFCuddManager.cpp
index 9e98dd2..e9a66e2 100644
--- a/src/BFAbstractionLibrary/BFCuddManager.cpp
+++ b/src/BFAbstractionLibrary/BFCuddManager.cpp
@@ -189,7 +189,7 @@ void BFBddManager::writeBDDToFile(const char *filename, std::string fileprefix,
     );
 
     delete[] idMatcher;
-    fclose(file);
+    if (fclose(file)!=0) storeReturnValue = DDDMP_FAILURE;
 
     if (storeReturnValue!=DDDMP_SUCCESS) throw "Error: Unable to write BDD to file.";
 
diff --git a/src/extensionExtractExplicitCounterstrategy.hpp b/src/extensionExtractExplicitCounterstrategy.hpp
index 046e7a7..e0e819f 100644
--- a/src/extensionExtractExplicitCounterstrategy.hpp
+++ b/src/extensionExtractExplicitCounterstrategy.hpp
@@ -76,12 +76,12 @@ void execute() {
                     throw ex;
                 }
                 computeAndPrintExplicitStateStrategy(of);
+                of.close();
                 if (of.fail()) {
                     SlugsException ex(false);
                     ex << "Error: Writing to output file'" << outputFilename << "failed. \n";
                     throw ex;
                 }
-                of.close();
             }
         }
 }
diff --git a/src/extensionExtractExplicitStrategy.hpp b/src/extensionExtractExplicitStrategy.hpp
index e2f71c8..4aeffb3 100644
--- a/src/extensionExtractExplicitStrategy.hpp
+++ b/src/extensionExtractExplicitStrategy.hpp
@@ -62,12 +62,12 @@ public:
                     throw ex;
                 }
                 computeAndPrintExplicitStateStrategy(of);
+                of.close();
                 if (of.fail()) {
                     SlugsException ex(false);
                     ex << "Error: Writing to output file'" << outputFilename << "failed. \n";
                     throw ex;
                 }
-                of.close();
             }
         }
     }
diff --git a/src/extensionPermissiveExplicitStrategy.hpp b/src/extensionPermissiveExplicitStrategy.hpp
index 8695ccc..111d86c 100644
--- a/src/extensionPermissiveExplicitStrategy.hpp
+++ b/src/extensionPermissiveExplicitStrategy.hpp
@@ -65,12 +65,12 @@ public:
                     throw ex;
                 }
                 computeAndPrintExplicitStateStrategy(of);
+                of.close();
                 if (of.fail()) {
                     SlugsException ex(false);
                     ex << "Error: Writing to output file'" << outputFilename << "failed. \n";
                     throw ex;
                 }
-                of.close();
             }
         }
     }
diff --git a/src/main.cpp b/src/main.cpp
index c26ca71..5bbbb45 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -347,6 +347,8 @@ int main(int argc, const char **args) {
                 context->computeVariableInformation();
                 context->execute();
                 delete context;
+                std::cout.flush();
+                if (std::cout.fail()) throw "Writing to the standard output failed";
                 return 0;
             } // else { std::cerr << optionCombinations[i].params << ":" << totalParameters << "!\n"; }
         }
-- 
2.43.0


From a133b782bf54f4c377fca20d7714b2fb82a2bb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:01 +0000
Subject: [PATCH 042/103] fix: estimator output: keep the functions whose hash
 codes are memoised alive

---
 ...tensionIncompleteInformationEstimatorSynthesis.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/extensionIncompleteInformationEstimatorSynthesis.hpp b/src/extensionIncompleteInformationEstimatorSynthesis.hpp
index ebd54c9..38d4de2 100644
--- a/src/extensionIncompleteInformationEstimatorSynthesis.hpp
+++ b/src/extensionIncompleteInformationEstimatorSynthesis.hpp
@@ -157,12 +157,14 @@ protected:
     //===========================================
     std::map<int,int> varIndicesByNodeIndex;
 
-    int recursePrintBFAsSlugsExpression(BF bf,std::map<size_t,int> &nodes,std::vector<std::string> &parts) {
+    // The hash codes in "nodes" are only valid while the respective BFs exist, so "keptAlive" stores them.
+    int recursePrintBFAsSlugsExpression(BF bf,std::map<size_t,int> &nodes,std::vector<BF> &keptAlive,std::vector<std::string> &parts) {
 
         std::map<size_t,int>::iterator it = nodes.find(bf.getHashCode());
         if (it!=nodes.end()) {
             return it->second;
         } else {
+            keptAlive.push_back(bf);
             if (bf.isFalse()) {
                 parts.push_back("0");
                 nodes[bf.getHashCode()] = parts.size()-1;
@@ -176,8 +178,8 @@ protected:
                 int varNumber = varIndicesByNodeIndex.at(bf.readNodeIndex());
                 BF trueSucc = (bf & variables[varNumber]).ExistAbstractSingleVar(variables[varNumber]);
                 BF falseSucc = (bf & !variables[varNumber]).ExistAbstractSingleVar(variables[varNumber]);
-                int qTrue = recursePrintBFAsSlugsExpression(trueSucc,nodes,parts);
-                int qFalse = recursePrintBFAsSlugsExpression(falseSucc,nodes,parts);
+                int qTrue = recursePrintBFAsSlugsExpression(trueSucc,nodes,keptAlive,parts);
+                int qFalse = recursePrintBFAsSlugsExpression(falseSucc,nodes,keptAlive,parts);
                 std::ostringstream os;
                 os << "| & " << variableNames[varNumber] << " ? " << qTrue << " & ! " << variableNames[varNumber] << " ? " << qFalse;
                 parts.push_back(os.str());
@@ -196,10 +198,11 @@ protected:
 
         // Allocate Node counters
         std::map<size_t,int> nodes;
+        std::vector<BF> keptAlive;
         std::vector<std::string> parts;
 
         // Recurse
-        int part = recursePrintBFAsSlugsExpression(bf,nodes,parts);
+        int part = recursePrintBFAsSlugsExpression(bf,nodes,keptAlive,parts);
 
         // Dummy instruction for the case that the following "assert" stateent is not executed
         (void)part;
-- 
2.43.0


From db03d463b1698f4d42bf6d98fc142ab665001ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:54 +0000
Subject: [PATCH 043/103] fix: estimator: no system dead-end warning for steps
 that the environment assumption excludes

---
 src/extensionIncompleteInformationEstimatorSynthesis.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensionIncompleteInformationEstimatorSynthesis.hpp b/src/extensionIncompleteInformationEstimatorSynthesis.hpp
index 38d4de2..6765164 100644
--- a/src/extensionIncompleteInformationEstimatorSynthesis.hpp
+++ b/src/extensionIncompleteInformationEstimatorSynthesis.hpp
@@ -375,7 +375,7 @@ protected:
             BF_newDumpDot(*this,deadEnds,NULL,"/tmp/envDeadEnd.dot");
             BF_newDumpDot(*this,weakDeterminize(deadEnds,preVars),NULL,"/tmp/envDeadEndDet.dot");
         }
-        deadEnds = (!deadEnds) & ((!strategy).UnivAbstract(varCubeEstimationPost)) & reachableStates;
+        deadEnds = (!deadEnds) & environmentAssumption & ((!strategy).UnivAbstract(varCubeEstimationPost)) & reachableStates;
         if (!(deadEnds.isFalse())) {
             std::cerr << "============================================================\n";
             std::cerr << "WARNING! There are system dead-ends in the abstraction!\n";
-- 
2.43.0


From 288db72cfd0a8d99b8b6e5a3cebe918b330db7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:25 +0000
Subject: [PATCH 044/103] fix: Cudd_Inequality, Cudd_Disequality: shift of
 negative numbers

---
 lib/cudd-3.0.0/cudd/cuddPriority.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddPriority.c b/lib/cudd-3.0.0/cudd/cuddPriority.c
index dfb530f..27c83bf 100644
--- a/lib/cudd-3.0.0/cudd/cuddPriority.c
+++ b/lib/cudd-3.0.0/cudd/cuddPriority.c
@@ -761,7 +761,7 @@ Cudd_Inequality(
 	    if ((j >= (1 << (N - i))) || (j <= -(1 << (N -i)))) continue;
 
 	    /* Find f- */
-	    leftChild = (j << 1) - 1;
+	    leftChild = (2 * j) - 1;
 	    if (leftChild >= kTrueLower) {
 		fminus = one;
 	    } else if (leftChild <= kFalseLower) {
@@ -776,7 +776,7 @@ Cudd_Inequality(
 	    }
 
 	    /* Find f= */
-	    middleChild = j << 1;
+	    middleChild = 2 * j;
 	    if (middleChild >= kTrueLower) {
 		fequal = one;
 	    } else if (middleChild <= kFalseLower) {
@@ -791,7 +791,7 @@ Cudd_Inequality(
 	    }
 
 	    /* Find f+ */
-	    rightChild = (j << 1) + 1;
+	    rightChild = (2 * j) + 1;
 	    if (rightChild >= kTrueLower) {
 		fplus = one;
 	    } else if (rightChild <= kFalseLower) {
@@ -948,7 +948,7 @@ Cudd_Disequality(
 	    if ((j >= (1 << (N - i))) || (j <= -(1 << (N -i)))) continue;
 
 	    /* Find f- */
-	    leftChild = (j << 1) - 1;
+	    leftChild = (2 * j) - 1;
 	    if (leftChild >= kTrueLbLower || leftChild <= kTrueUbLower) {
 		fminus = one;
 	    } else if (i == 1 && leftChild == kFalse) {
@@ -963,7 +963,7 @@ Cudd_Disequality(
 	    }
 
 	    /* Find f= */
-	    middleChild = j << 1;
+	    middleChild = 2 * j;
 	    if (middleChild >= kTrueLbLower || middleChild <= kTrueUbLower) {
 		fequal = one;
 	    } else if (i == 1 && middleChild == kFalse) {
@@ -978,7 +978,7 @@ Cudd_Disequality(
 	    }
 
 	    /* Find f+ */
-	    rightChild = (j << 1) + 1;
+	    rightChild = (2 * j) + 1;
 	    if (rightChild >= kTrueLbLower || rightChild <= kTrueUbLower) {
 		fplus = one;
 	    } else if (i == 1 && rightChild == kFalse) {
-- 
2.43.0


From a3bfd36c2fd23c1f7d98f9e1e5a9c7f63511a01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:25 +0000
Subject: [PATCH 045/103] fix: Cudd_CofMinterm: write before the result array
 for constants

---
 lib/cudd-3.0.0/cudd/cuddSign.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddSign.c b/lib/cudd-3.0.0/cudd/cuddSign.c
index e2d50f8..63ffb2a 100644
--- a/lib/cudd-3.0.0/cudd/cuddSign.c
+++ b/lib/cudd-3.0.0/cudd/cuddSign.c
@@ -127,7 +127,7 @@ Cudd_CofMinterm(
 	result = ALLOC(double,size + 1);
 	if (result != NULL) {
 	    if (Cudd_IsConstantInt(node))
-		firstLevel = 1;
+		firstLevel = size;
 	    else
 		firstLevel = cuddI(dd,Cudd_Regular(node)->index);
 	    for (i = 0; i < size; i++) {
-- 
2.43.0


From 3bb976d60e7de8da423b2c0f1613cb7752cb7400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:25 +0000
Subject: [PATCH 046/103] fix: exact reordering: read before the subtable array

---
 lib/cudd-3.0.0/cudd/cuddExact.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddExact.c b/lib/cudd-3.0.0/cudd/cuddExact.c
index 0e07eb2..6e26db5 100644
--- a/lib/cudd-3.0.0/cudd/cuddExact.c
+++ b/lib/cudd-3.0.0/cudd/cuddExact.c
@@ -238,7 +238,7 @@ cuddExact(
 	    /* For each top bottom variable. */
 	    for (j = level; j >= 0; j--) {
 		/* Skip unused variables. */
-		if (table->subtables[j+lower-1].keys == 1 &&
+		if (j > 0 && table->subtables[j+lower-1].keys == 1 &&
 		    table->vars[table->invperm[j+lower-1]]->ref == 1) continue;
 		/* Find cost under this order. */
 		subsetCost = cost + getLevelKeys(table, lower + level);
-- 
2.43.0


From d9fb27776d35a565378e6be5a52eb099b7246983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:25 +0000
Subject: [PATCH 047/103] fix: signed overflow and negative buckets in hash
 functions

---
 lib/cudd-3.0.0/cudd/cuddBddCorr.c | 6 +++---
 lib/cudd-3.0.0/cudd/cuddGenCof.c  | 8 ++++----
 lib/cudd-3.0.0/cudd/cuddGenetic.c | 6 +++---
 lib/cudd-3.0.0/st/st.c            | 6 +++---
 4 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddBddCorr.c b/lib/cudd-3.0.0/cudd/cuddBddCorr.c
index efce7dd..b140fa2 100644
--- a/lib/cudd-3.0.0/cudd/cuddBddCorr.c
+++ b/lib/cudd-3.0.0/cudd/cuddBddCorr.c
@@ -436,11 +436,11 @@ CorrelHash(
   int  modulus)
 {
     HashEntry const *entry = (HashEntry const *) key;
-    int val = 0;
+    unsigned int val = 0;
 
-    val = (int) (((ptrint)entry->f)*997 + ((ptrint)entry->g));
+    val = (unsigned int) (((ptruint)entry->f)*997 + ((ptruint)entry->g));
 
-    return ((val < 0) ? -val : val) % modulus;
+    return (int) ((((int) val < 0) ? -val : val) % (unsigned int) modulus);
 
 } /* end of CorrelHash */
 
diff --git a/lib/cudd-3.0.0/cudd/cuddGenCof.c b/lib/cudd-3.0.0/cudd/cuddGenCof.c
index f999067..9177928 100644
--- a/lib/cudd-3.0.0/cudd/cuddGenCof.c
+++ b/lib/cudd-3.0.0/cudd/cuddGenCof.c
@@ -1878,13 +1878,13 @@ MarkCacheHash(
   void const * ptr,
   int  modulus)
 {
-    int val = 0;
+    unsigned int val = 0;
     MarkCacheKey const *entry = (MarkCacheKey const *) ptr;
 
-    val = (int) (ptrint) entry->f;
-    val = val * 997 + (int) (ptrint) entry->c;
+    val = (unsigned int) (ptruint) entry->f;
+    val = val * 997 + (unsigned int) (ptruint) entry->c;
 
-    return ((val < 0) ? -val : val) % modulus;
+    return (int) ((((int) val < 0) ? -val : val) % (unsigned int) modulus);
 
 } /* end of MarkCacheHash */
 
diff --git a/lib/cudd-3.0.0/cudd/cuddGenetic.c b/lib/cudd-3.0.0/cudd/cuddGenetic.c
index a818225..a1e0e3d 100644
--- a/lib/cudd-3.0.0/cudd/cuddGenetic.c
+++ b/lib/cudd-3.0.0/cudd/cuddGenetic.c
@@ -638,16 +638,16 @@ array_hash(
   int modulus,
   void const * arg)
 {
-    int val = 0;
+    unsigned int val = 0;
     int i;
     int const *intarray = (int const *) array;
     int const numvars = (int const)(ptrint const) arg;
 
     for (i = 0; i < numvars; i++) {
-	val = val * 997 + intarray[i];
+	val = val * 997 + (unsigned int) intarray[i];
     }
 
-    return(((val < 0) ? -val : val) % modulus);
+    return((int) (val % (unsigned int) modulus));
 
 } /* end of array_hash */
 
diff --git a/lib/cudd-3.0.0/st/st.c b/lib/cudd-3.0.0/st/st.c
index 004c44c..7138fe0 100644
--- a/lib/cudd-3.0.0/st/st.c
+++ b/lib/cudd-3.0.0/st/st.c
@@ -915,15 +915,15 @@ st_foreach(st_table *table, st_foreach_t func, void *arg)
 int
 st_strhash(void const *string, int modulus)
 {
-    int val = 0;
+    unsigned int val = 0;
     int c;
     char const * s = (char const *) string;
     
     while ((c = *s++) != '\0') {
-	val = val*997 + c;
+	val = val*997 + (unsigned int) c;
     }
 
-    return ((val < 0) ? -val : val)%modulus;
+    return (int) ((((int) val < 0) ? -val : val) % (unsigned int) modulus);
 
 } /* st_strhash */
 
-- 
2.43.0


From 1ec51ef8b5d49a86bda0361238c1a112c3ac7b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:25 +0000
Subject: [PATCH 048/103] fix: Cudd_SplitSet: leaked reference to the result

---
 lib/cudd-3.0.0/cudd/cuddSplit.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/cudd-3.0.0/cudd/cuddSplit.c b/lib/cudd-3.0.0/cudd/cuddSplit.c
index f806f6d..6515381 100644
--- a/lib/cudd-3.0.0/cudd/cuddSplit.c
+++ b/lib/cudd-3.0.0/cudd/cuddSplit.c
@@ -519,6 +519,8 @@ selectMintermsFromUniverse(
 	Cudd_RecursiveDeref(manager,vars[i]);
     FREE(vars);
 
+    if (result)
+	cuddDeref(result);
     return(result);
 
 } /* end of selectMintermsFromUniverse */
-- 
2.43.0


From 524dd9fa6e7f328fa10ae9c6657286723af454ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:25 +0000
Subject: [PATCH 049/103] fix: Cudd_SolveEqn: leak of components when
 reordering restarts the computation

---
 lib/cudd-3.0.0/cudd/cuddSolve.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/cudd-3.0.0/cudd/cuddSolve.c b/lib/cudd-3.0.0/cudd/cuddSolve.c
index c1af278..348c68f 100644
--- a/lib/cudd-3.0.0/cudd/cuddSolve.c
+++ b/lib/cudd-3.0.0/cudd/cuddSolve.c
@@ -111,6 +111,7 @@ Cudd_SolveEqn(
 {
     DdNode *res;
     int *temp;
+    int i;
 
     *yIndex = temp = ALLOC(int, n);
     if (temp == NULL) {
@@ -122,7 +123,14 @@ Cudd_SolveEqn(
 
     do {
 	bdd->reordered = 0;
+	for (i = 0; i < n; i++) G[i] = NULL;
 	res = cuddSolveEqnRecur(bdd, F, Y, G, n, temp, 0);
+	if (res == NULL) {
+	    /* Release the components computed by the abandoned attempt. */
+	    for (i = 0; i < n; i++) {
+		if (G[i] != NULL) Cudd_IterDerefBdd(bdd, G[i]);
+	    }
+	}
     } while (bdd->reordered == 1);
     if (bdd->errorCode == CUDD_TIMEOUT_EXPIRED && bdd->timeoutHandler) {
         bdd->timeoutHandler(bdd, bdd->tohArg);
-- 
2.43.0


From 61c361384de6f936a5acba185def04f44126822b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:25 +0000
Subject: [PATCH 050/103] fix: Cudd_bddMakePrime: the rest of the cube was not
 held while quantification may reorder

---
 lib/cudd-3.0.0/cudd/cuddSat.c | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddSat.c b/lib/cudd-3.0.0/cudd/cuddSat.c
index bce24ee..021a24c 100644
--- a/lib/cudd-3.0.0/cudd/cuddSat.c
+++ b/lib/cudd-3.0.0/cudd/cuddSat.c
@@ -972,11 +972,27 @@ cuddBddMakePrime(
 
     Cudd_Ref(res);
     scan = cube;
+    Cudd_Ref(scan);
     while (!Cudd_IsConstantInt(scan)) {
 	DdNode *reg = Cudd_Regular(scan);
 	DdNode *var = dd->vars[reg->index];
-	DdNode *expanded = Cudd_bddExistAbstract(dd,res,var);
+	DdNode *expanded;
+	/* Advance and hold the rest of the cube first, because quantification
+	** may reorder the variables. */
+	cuddGetBranches(scan,&t,&e);
+	if (t == lzero) {
+	    t = e;
+	} else if (e != lzero) {
+	    Cudd_RecursiveDeref(dd,scan);
+	    Cudd_RecursiveDeref(dd,res);
+	    return(NULL);	/* cube is not a cube */
+	}
+	Cudd_Ref(t);
+	Cudd_RecursiveDeref(dd,scan);
+	scan = t;
+	expanded = Cudd_bddExistAbstract(dd,res,var);
 	if (expanded == NULL) {
+            Cudd_RecursiveDeref(dd,scan);
             Cudd_RecursiveDeref(dd,res);
 	    return(NULL);
 	}
@@ -987,16 +1003,8 @@ cuddBddMakePrime(
 	} else {
 	    Cudd_RecursiveDeref(dd,expanded);
 	}
-	cuddGetBranches(scan,&t,&e);
-	if (t == lzero) {
-	    scan = e;
-	} else if (e == lzero) {
-	    scan = t;
-	} else {
-	    Cudd_RecursiveDeref(dd,res);
-	    return(NULL);	/* cube is not a cube */
-	}
     }
+    Cudd_Deref(scan); /* constant */
 
     if (scan == DD_ONE(dd)) {
 	Cudd_Deref(res);
-- 
2.43.0


From dbc195efe3eae8a183b49297d6f1e8f69f027b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:25 +0000
Subject: [PATCH 051/103] fix: Cudd_bddNPAnd: result must not leave the first
 operand's range, recursion into itself

---
 lib/cudd-3.0.0/cudd/cuddGenCof.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddGenCof.c b/lib/cudd-3.0.0/cudd/cuddGenCof.c
index 9177928..22f5c90 100644
--- a/lib/cudd-3.0.0/cudd/cuddGenCof.c
+++ b/lib/cudd-3.0.0/cudd/cuddGenCof.c
@@ -1084,7 +1084,7 @@ cuddBddNPAndRecur(
     F = Cudd_Regular(f);
     G = Cudd_Regular(g);
     if (F == G) {
-	if (f == g) return(one);
+	if (f == g) return(f);
 	else return(Cudd_Not(one));
     }
     if (G == one) {
@@ -1158,11 +1158,11 @@ cuddBddNPAndRecur(
 	gt = ge = g;
     }
 
-    t = cuddBddAndRecur(manager, ft, gt);
+    t = cuddBddNPAndRecur(manager, ft, gt);
     if (t == NULL) return(NULL);
     cuddRef(t);
 
-    e = cuddBddAndRecur(manager, fe, ge);
+    e = cuddBddNPAndRecur(manager, fe, ge);
     if (e == NULL) {
 	Cudd_IterDerefBdd(manager, t);
 	return(NULL);
-- 
2.43.0


From 26ccfb28653928203d5a0cd2adea71c31ea3d111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:25 +0000
Subject: [PATCH 052/103] fix: extended-exponent numbers: zeros

---
 lib/cudd-3.0.0/epd/epd.c | 50 ++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/lib/cudd-3.0.0/epd/epd.c b/lib/cudd-3.0.0/epd/epd.c
index 7bfa907..a3cb7d8 100644
--- a/lib/cudd-3.0.0/epd/epd.c
+++ b/lib/cudd-3.0.0/epd/epd.c
@@ -169,7 +169,7 @@ EpdMultiply(EpDouble *epd1, double value)
     return;
   }
 
-  assert(epd1->type.bits.exponent == EPD_MAX_BIN);
+  assert(epd1->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd1));
 
   EpdConvert(value, &epd2);
   tmp = epd1->type.value * epd2.type.value;
@@ -200,8 +200,8 @@ EpdMultiply2(EpDouble *epd1, EpDouble const *epd2)
     return;
   }
 
-  assert(epd1->type.bits.exponent == EPD_MAX_BIN);
-  assert(epd2->type.bits.exponent == EPD_MAX_BIN);
+  assert(epd1->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd1));
+  assert(epd2->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd2));
 
   value = epd1->type.value * epd2->type.value;
   exponent = epd1->exponent + epd2->exponent;
@@ -258,8 +258,8 @@ EpdMultiply3(EpDouble const *epd1, EpDouble const *epd2, EpDouble *epd3)
     return;
   }
 
-  assert(epd1->type.bits.exponent == EPD_MAX_BIN);
-  assert(epd2->type.bits.exponent == EPD_MAX_BIN);
+  assert(epd1->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd1));
+  assert(epd2->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd2));
 
   epd3->type.value = epd1->type.value * epd2->type.value;
   epd3->exponent = epd1->exponent + epd2->exponent;
@@ -324,7 +324,7 @@ EpdDivide(EpDouble *epd1, double value)
     return;
   }
 
-  assert(epd1->type.bits.exponent == EPD_MAX_BIN);
+  assert(epd1->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd1));
 
   EpdConvert(value, &epd2);
   tmp = epd1->type.value / epd2.type.value;
@@ -367,8 +367,8 @@ EpdDivide2(EpDouble *epd1, EpDouble const *epd2)
     return;
   }
 
-  assert(epd1->type.bits.exponent == EPD_MAX_BIN);
-  assert(epd2->type.bits.exponent == EPD_MAX_BIN);
+  assert(epd1->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd1));
+  assert(epd2->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd2));
 
   value = epd1->type.value / epd2->type.value;
   exponent = epd1->exponent - epd2->exponent;
@@ -407,8 +407,8 @@ EpdDivide3(EpDouble const *epd1, EpDouble const *epd2, EpDouble *epd3)
     return;
   }
 
-  assert(epd1->type.bits.exponent == EPD_MAX_BIN);
-  assert(epd2->type.bits.exponent == EPD_MAX_BIN);
+  assert(epd1->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd1));
+  assert(epd2->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd2));
 
   epd3->type.value = epd1->type.value / epd2->type.value;
   epd3->exponent = epd1->exponent - epd2->exponent;
@@ -443,7 +443,7 @@ EpdAdd(EpDouble *epd1, double value)
     return;
   }
 
-  assert(epd1->type.bits.exponent == EPD_MAX_BIN);
+  assert(epd1->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd1));
 
   EpdConvert(value, &epd2);
   if (epd1->exponent > epd2.exponent) {
@@ -497,8 +497,8 @@ EpdAdd2(EpDouble *epd1, EpDouble const *epd2)
     return;
   }
 
-  assert(epd1->type.bits.exponent == EPD_MAX_BIN);
-  assert(epd2->type.bits.exponent == EPD_MAX_BIN);
+  assert(epd1->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd1));
+  assert(epd2->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd2));
 
   if (epd1->exponent > epd2->exponent) {
     diff = epd1->exponent - epd2->exponent;
@@ -555,8 +555,8 @@ EpdAdd3(EpDouble const *epd1, EpDouble const *epd2, EpDouble *epd3)
     return;
   }
 
-  assert(epd1->type.bits.exponent == EPD_MAX_BIN);
-  assert(epd2->type.bits.exponent == EPD_MAX_BIN);
+  assert(epd1->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd1));
+  assert(epd2->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd2));
 
   if (epd1->exponent > epd2->exponent) {
     diff = epd1->exponent - epd2->exponent;
@@ -611,7 +611,7 @@ EpdSubtract(EpDouble *epd1, double value)
     return;
   }
 
-  assert(epd1->type.bits.exponent == EPD_MAX_BIN);
+  assert(epd1->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd1));
 
   EpdConvert(value, &epd2);
   if (epd1->exponent > epd2.exponent) {
@@ -663,8 +663,8 @@ EpdSubtract2(EpDouble *epd1, EpDouble const *epd2)
     return;
   }
 
-  assert(epd1->type.bits.exponent == EPD_MAX_BIN);
-  assert(epd2->type.bits.exponent == EPD_MAX_BIN);
+  assert(epd1->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd1));
+  assert(epd2->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd2));
 
   if (epd1->exponent > epd2->exponent) {
     diff = epd1->exponent - epd2->exponent;
@@ -722,8 +722,8 @@ EpdSubtract3(EpDouble const *epd1, EpDouble const *epd2, EpDouble *epd3)
     return;
   }
 
-  assert(epd1->type.bits.exponent == EPD_MAX_BIN);
-  assert(epd2->type.bits.exponent == EPD_MAX_BIN);
+  assert(epd1->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd1));
+  assert(epd2->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd2));
 
   if (epd1->exponent > epd2->exponent) {
     diff = epd1->exponent - epd2->exponent;
@@ -808,6 +808,11 @@ EpdNormalize(EpDouble *epd)
     return;
   }
 
+  if (EpdIsZero(epd)) {
+    epd->exponent = 0;
+    return;
+  }
+
   exponent = EpdGetExponent(epd->type.value);
   if (exponent == EPD_MAX_BIN)
     return;
@@ -830,6 +835,11 @@ EpdNormalizeDecimal(EpDouble *epd)
     return;
   }
 
+  if (EpdIsZero(epd)) {
+    epd->exponent = 0;
+    return;
+  }
+
   exponent = EpdGetExponentDecimal(epd->type.value);
   epd->type.value /= pow((double)10.0, (double)exponent);
   epd->exponent += exponent;
-- 
2.43.0


From c6c78ab7c83c8e31885776e1bd28970f6b4e9912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:25 +0000
Subject: [PATCH 053/103] fix: decompositions: pair of factors chosen by one
 member only, double release of an abandoned factor

---
 lib/cudd-3.0.0/cudd/cuddDecomp.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddDecomp.c b/lib/cudd-3.0.0/cudd/cuddDecomp.c
index b772142..e7bdaaa 100644
--- a/lib/cudd-3.0.0/cudd/cuddDecomp.c
+++ b/lib/cudd-3.0.0/cudd/cuddDecomp.c
@@ -1566,6 +1566,7 @@ ZeroCase(
     h2 = cuddBddAndRecur(dd, x, factorsNv->h);
     if (h2 != NULL) cuddRef(h2);
     if (h2 == NULL) {
+	Cudd_RecursiveDeref(dd, g1);
 	Cudd_RecursiveDeref(dd, factorsNv->h);
 	Cudd_RecursiveDeref(dd, factorsNv->g);
 	return NULL;
@@ -1582,7 +1583,8 @@ ZeroCase(
 	return NULL;
     }
     if (factors != NULL) {
-	if ((factors->g == g1) || (factors->g == h1)) {
+	if (((factors->g == g1) && (factors->h == h1)) ||
+	    ((factors->g == h1) && (factors->h == g1))) {
 	    Cudd_RecursiveDeref(dd, g2);
 	    Cudd_RecursiveDeref(dd, h2);
 	} else {
@@ -1602,7 +1604,8 @@ ZeroCase(
 	Cudd_RecursiveDeref(dd, h2);
     } else {
 	/* now free what was created and not used */
-	if ((factors->g == g1) || (factors->g == h1)) {
+	if (((factors->g == g1) && (factors->h == h1)) ||
+	    ((factors->g == h1) && (factors->h == g1))) {
 	    Cudd_RecursiveDeref(dd, g2);
 	    Cudd_RecursiveDeref(dd, h2);
 	} else {
@@ -1880,10 +1883,8 @@ BuildConjuncts(
 
     h2 = cuddBddIteRecur(dd, topv, factorsNv->h, factorsNnv->g);
     if (h2 == NULL) {
-	Cudd_RecursiveDeref(dd, factorsNv->g);
 	Cudd_RecursiveDeref(dd, factorsNv->h);
 	Cudd_RecursiveDeref(dd, factorsNnv->g);
-	Cudd_RecursiveDeref(dd, factorsNnv->h);
 	Cudd_RecursiveDeref(dd, g1);
 	Cudd_RecursiveDeref(dd, h1);
 	Cudd_RecursiveDeref(dd, g2);
@@ -1908,7 +1909,8 @@ BuildConjuncts(
 	return(NULL);
     }
     if (factors != NULL) {
-	if ((factors->g == g1) || (factors->g == h1)) {
+	if (((factors->g == g1) && (factors->h == h1)) ||
+	    ((factors->g == h1) && (factors->h == g1))) {
 	    Cudd_RecursiveDeref(dd, g2);
 	    Cudd_RecursiveDeref(dd, h2);
 	} else {
@@ -1928,7 +1930,8 @@ BuildConjuncts(
 	Cudd_RecursiveDeref(dd, h2);
     } else {
 	/* now free what was created and not used */
-	if ((factors->g == g1) || (factors->g == h1)) {
+	if (((factors->g == g1) && (factors->h == h1)) ||
+	    ((factors->g == h1) && (factors->h == g1))) {
 	    Cudd_RecursiveDeref(dd, g2);
 	    Cudd_RecursiveDeref(dd, h2);
 	} else {
-- 
2.43.0


From 5bff1690871bf6313c32fcd2622053fe685a9e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:25 +0000
Subject: [PATCH 054/103] fix: Cudd_FindTwoLiteralClauses: reads beyond the
 sentinel of a clause list

---
 lib/cudd-3.0.0/cudd/cuddEssent.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddEssent.c b/lib/cudd-3.0.0/cudd/cuddEssent.c
index 64d9000..c0a45e5 100644
--- a/lib/cudd-3.0.0/cudd/cuddEssent.c
+++ b/lib/cudd-3.0.0/cudd/cuddEssent.c
@@ -805,10 +805,12 @@ computeClauses(
 	    newclause->next = iclauses;
 	    iclauses = newclause;
 	    pt += 2; pe += 2; cv++;
-	} else if (beforep(Tcv[pt], bitVectorRead(Tcp, pt),
-		   Tcv[pt+1], bitVectorRead(Tcp, pt+1),
-		   Ecv[pe], bitVectorRead(Ecp, pe),
-		   Ecv[pe+1], bitVectorRead(Ecp, pe+1))) {
+	} else if (sentinelp(Ecv[pe], Ecv[pe+1]) ||
+		   (!sentinelp(Tcv[pt], Tcv[pt+1]) &&
+		    beforep(Tcv[pt], bitVectorRead(Tcp, pt),
+			    Tcv[pt+1], bitVectorRead(Tcp, pt+1),
+			    Ecv[pe], bitVectorRead(Ecp, pe),
+			    Ecv[pe+1], bitVectorRead(Ecp, pe+1)))) {
 	    if (oneliteralp(Tcv[pt+1])) {
 		/* Add this one-literal clause to the T set. */
 		newclause = ALLOC(TlClause,1);
@@ -964,7 +966,8 @@ computeClauses(
     Vcv = ALLOC(DdHalfWord, 2*(cv+1));
     if (Vcv == NULL) goto cleanup;
     if (cv > 0) {
-	Vcp = bitVectorAlloc(2*cv);
+	/* The phases of the sentinel are read when lists are merged. */
+	Vcp = bitVectorAlloc(2*(cv+1));
 	if (Vcp == NULL) goto cleanup;
     } else {
 	Vcp = NULL;
-- 
2.43.0


From 984411d95071f711ef551a9f3bf91dfe2dcf5b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:25 +0000
Subject: [PATCH 055/103] fix: constants smaller than epsilon were taken for
 zero

---
 lib/cudd-3.0.0/cudd/cuddTable.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddTable.c b/lib/cudd-3.0.0/cudd/cuddTable.c
index a627574..c700840 100644
--- a/lib/cudd-3.0.0/cudd/cuddTable.c
+++ b/lib/cudd-3.0.0/cudd/cuddTable.c
@@ -1551,11 +1551,14 @@ cuddUniqueConst(
     /* Here we compare values both for equality and for difference less
      * than epsilon. The first comparison is required when values are
      * infinite, since Infinity - Infinity is NaN and NaN < X is 0 for
-     * every X.
+     * every X.  Constants smaller than epsilon, which are left behind by
+     * computations with another epsilon (e.g., Cudd_CountMinterm), must not
+     * be taken for zero.
      */
     while (looking != NULL) {
 	if (looking->type.value == value ||
-	ddEqualVal(looking->type.value,value,unique->epsilon)) {
+	(ddAbs(looking->type.value) >= unique->epsilon &&
+	ddEqualVal(looking->type.value,value,unique->epsilon))) {
 	    if (looking->ref == 0) {
 		cuddReclaim(unique,looking);
 	    }
-- 
2.43.0


From 62c15d6d6510982a8cafecb57ede196671a8516d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:42 +0000
Subject: [PATCH 056/103] fix: Cudd_zddIthVar used the universe of a wrong
 level, and of an order that changed meanwhile

---
 lib/cudd-3.0.0/cudd/cuddAPI.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddAPI.c b/lib/cudd-3.0.0/cudd/cuddAPI.c
index fcc5eb0..cafec08 100644
--- a/lib/cudd-3.0.0/cudd/cuddAPI.c
+++ b/lib/cudd-3.0.0/cudd/cuddAPI.c
@@ -341,11 +341,18 @@ Cudd_zddIthVar(
     DdNode *zvar;
     DdNode *lower;
     int j;
+    int autoDynZ;
 
     if ((unsigned int) i >= CUDD_MAXINDEX - 1) {
         dd->errorCode = CUDD_INVALID_ARG;
         return(NULL);
     }
+    /* The nodes are built from the universe and for the levels of the current
+    ** order.  Hence the order must not change before the result is complete.
+    */
+    autoDynZ = dd->autoDynZ;
+    dd->autoDynZ = 0;
+
     /* The i-th variable function has the following structure:
     ** at the level corresponding to index i there is a node whose "then"
     ** child points to the universe, and whose "else" child points to zero.
@@ -353,7 +360,7 @@ Cudd_zddIthVar(
     */
 
     /* First we build the node at the level of index i. */
-    lower = (i < dd->sizeZ - 1) ? dd->univ[dd->permZ[i]+1] : DD_ONE(dd);
+    lower = (i < dd->sizeZ && dd->permZ[i] < dd->sizeZ - 1) ? dd->univ[dd->permZ[i]+1] : DD_ONE(dd);
     do {
 	dd->reordered = 0;
 	zvar = cuddUniqueInterZdd(dd, i, lower, DD_ZERO(dd));
@@ -362,8 +369,10 @@ Cudd_zddIthVar(
         dd->timeoutHandler(dd, dd->tohArg);
     }
 
-    if (zvar == NULL)
+    if (zvar == NULL) {
+	dd->autoDynZ = autoDynZ;
 	return(NULL);
+    }
     cuddRef(zvar);
 
     /* Now we add the "filler" nodes above the level of index i. */
@@ -374,6 +383,7 @@ Cudd_zddIthVar(
 	} while (dd->reordered == 1);
 	if (res == NULL) {
 	    Cudd_RecursiveDerefZdd(dd,zvar);
+	    dd->autoDynZ = autoDynZ;
             if (dd->errorCode == CUDD_TIMEOUT_EXPIRED && dd->timeoutHandler) {
                 dd->timeoutHandler(dd, dd->tohArg);
             }
@@ -384,6 +394,7 @@ Cudd_zddIthVar(
 	zvar = res;
     }
     cuddDeref(zvar);
+    dd->autoDynZ = autoDynZ;
     return(zvar);
 
 } /* end of Cudd_zddIthVar */
-- 
2.43.0


From 6a2e4631eb7d2d73037bfac87f28c25bc4ff0582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:42 +0000
Subject: [PATCH 057/103] fix: Cudd_addMinus went on after a reordering with
 nodes of the old order

---
 lib/cudd-3.0.0/cudd/cuddAddApply.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/cudd-3.0.0/cudd/cuddAddApply.c b/lib/cudd-3.0.0/cudd/cuddAddApply.c
index 3800638..3e90ce5 100644
--- a/lib/cudd-3.0.0/cudd/cuddAddApply.c
+++ b/lib/cudd-3.0.0/cudd/cuddAddApply.c
@@ -769,6 +769,8 @@ cuddAddApplyRecur(
     statLine(dd);
     res = (*op)(dd,&f,&g);
     if (res != NULL) return(res);
+    /* Cudd_addMinus may recur.  Start over if there was reordering. */
+    if (dd->reordered != 0) return(NULL);
 
     /* Check cache. */
     cacheOp = (DD_CTFP) op;
-- 
2.43.0


From d8f8be30b10378b5e47ab440eedfed00c5e511df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:42 +0000
Subject: [PATCH 058/103] fix: NULL results and references were not handled
 when Cudd_addWalsh and Cudd_addResidue are abandoned

---
 lib/cudd-3.0.0/cudd/cuddAddWalsh.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddAddWalsh.c b/lib/cudd-3.0.0/cudd/cuddAddWalsh.c
index 789341d..ea7c3db 100644
--- a/lib/cudd-3.0.0/cudd/cuddAddWalsh.c
+++ b/lib/cudd-3.0.0/cudd/cuddAddWalsh.c
@@ -219,6 +219,7 @@ Cudd_addResidue(
 		for (j = 0; j < m; j++) {
 		    Cudd_RecursiveDeref(dd,array[previous][j]);
 		}
+		Cudd_RecursiveDeref(dd,var);
 		FREE(array[0]);
 		FREE(array[1]);
 		return(NULL);
@@ -355,7 +356,7 @@ addWalshInt(
 	    }
 	    cuddRef(w);
 	    t = Cudd_addIte(dd, x[i], w, t1);
-	    if (u == NULL) {
+	    if (t == NULL) {
 		Cudd_RecursiveDeref(dd, u1);
 		Cudd_RecursiveDeref(dd, t1);
 		Cudd_RecursiveDeref(dd, u);
-- 
2.43.0


From 6c0e8ae2335f0319bee4b7e1e4098ceb2ccc3115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:42 +0000
Subject: [PATCH 059/103] fix: Cudd_bddConstrainDecomp lost its partial results
 when it is abandoned

---
 lib/cudd-3.0.0/cudd/cuddGenCof.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/cudd-3.0.0/cudd/cuddGenCof.c b/lib/cudd-3.0.0/cudd/cuddGenCof.c
index 22f5c90..255de1b 100644
--- a/lib/cudd-3.0.0/cudd/cuddGenCof.c
+++ b/lib/cudd-3.0.0/cudd/cuddGenCof.c
@@ -360,6 +360,11 @@ Cudd_bddConstrainDecomp(
 	res = cuddBddConstrainDecomp(dd,f,decomp);
     } while (dd->reordered == 1);
     if (res == 0) {
+	for (i = 0; i < dd->size; i++) {
+	    if (decomp[i] != NULL) {
+		Cudd_IterDerefBdd(dd, decomp[i]);
+	    }
+	}
 	FREE(decomp);
         if (dd->errorCode == CUDD_TIMEOUT_EXPIRED && dd->timeoutHandler) {
           dd->timeoutHandler(dd, dd->tohArg);
-- 
2.43.0


From 6bd8a3e4af9e01599c7a854c67f021486c12c22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:42 +0000
Subject: [PATCH 060/103] fix: Cudd_addRestrict returned its argument instead
 of NULL when it is abandoned

---
 lib/cudd-3.0.0/cudd/cuddGenCof.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddGenCof.c b/lib/cudd-3.0.0/cudd/cuddGenCof.c
index 255de1b..efb8775 100644
--- a/lib/cudd-3.0.0/cudd/cuddGenCof.c
+++ b/lib/cudd-3.0.0/cudd/cuddGenCof.c
@@ -441,7 +441,7 @@ Cudd_addRestrict(
             if (dd->errorCode == CUDD_TIMEOUT_EXPIRED && dd->timeoutHandler) {
                 dd->timeoutHandler(dd, dd->tohArg);
             }
-            return(f);
+            return(NULL);
         }
 	sizeF = Cudd_DagSize(f);
 	sizeRes = Cudd_DagSize(res);
-- 
2.43.0


From 9a3b61a67df3dd829659df4e1d18fc7f85f32306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:42 +0000
Subject: [PATCH 061/103] fix: the roulette of genetic reordering read beyond
 its wheel

---
 lib/cudd-3.0.0/cudd/cuddGenetic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddGenetic.c b/lib/cudd-3.0.0/cudd/cuddGenetic.c
index a1e0e3d..3f316ad 100644
--- a/lib/cudd-3.0.0/cudd/cuddGenetic.c
+++ b/lib/cudd-3.0.0/cudd/cuddGenetic.c
@@ -879,7 +879,7 @@ roulette(
     ** the sum of all fitness values. 2147483561 is the largest number
     ** returned by Cudd_Random.
     */
-    spin = wheel[info->numvars-1] * (double) Cudd_Random(dd) / 2147483561.0;
+    spin = wheel[info->popsize-1] * (double) Cudd_Random(dd) / 2147483561.0;
 
     /* Find the lucky element by scanning the wheel. */
     for (i = 0; i < info->popsize; i++) {
-- 
2.43.0


From 3bff1e27390dc04077785d2eb52004b0ebae104f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:42 +0000
Subject: [PATCH 062/103] fix: NULL results and references were not handled
 when Cudd_addTimesPlus and Cudd_addOuterSum are abandoned

---
 lib/cudd-3.0.0/cudd/cuddMatMult.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/cudd-3.0.0/cudd/cuddMatMult.c b/lib/cudd-3.0.0/cudd/cuddMatMult.c
index 2b1e547..2229ba8 100644
--- a/lib/cudd-3.0.0/cudd/cuddMatMult.c
+++ b/lib/cudd-3.0.0/cudd/cuddMatMult.c
@@ -180,6 +180,7 @@ Cudd_addTimesPlus(
 	 w = Cudd_addIte(dd,z[i],cube,DD_ZERO(dd));
 	 if (w == NULL) {
 	    Cudd_RecursiveDeref(dd,tmp);
+	    Cudd_RecursiveDeref(dd,cube);
 	    return(NULL);
 	 }
 	 Cudd_Ref(w);
@@ -633,6 +634,7 @@ cuddAddOuterSumRecur(
 
     if (cuddIsConstant(c) && cuddIsConstant(r)) {
 	R = cuddUniqueConst(dd,Cudd_V(c)+Cudd_V(r));
+	if (R == NULL) return(NULL);
 	cuddRef(R);
 	if (cuddIsConstant(M)) {
 	    if (cuddV(R) <= cuddV(M)) {
@@ -644,6 +646,10 @@ cuddAddOuterSumRecur(
 	    }
 	} else {
 	    P = Cudd_addApply(dd,Cudd_addMinimum,R,M);
+	    if (P == NULL) {
+		Cudd_RecursiveDeref(dd,R);
+		return(NULL);
+	    }
 	    cuddRef(P);
 	    Cudd_RecursiveDeref(dd,R);
 	    cuddDeref(P);
-- 
2.43.0


From 984506a271e73ae3ede9713fb63e78bcc1bb91a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:42 +0000
Subject: [PATCH 063/103] fix: NULL result was not handled when Cudd_addXeqy is
 abandoned

---
 lib/cudd-3.0.0/cudd/cuddPriority.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddPriority.c b/lib/cudd-3.0.0/cudd/cuddPriority.c
index 27c83bf..c60bc6a 100644
--- a/lib/cudd-3.0.0/cudd/cuddPriority.c
+++ b/lib/cudd-3.0.0/cudd/cuddPriority.c
@@ -411,7 +411,7 @@ Cudd_addXeqy(
 	cuddRef(w);
 	Cudd_RecursiveDeref(dd, u);
 	u = Cudd_addIte(dd, x[i], v, w);
-	if (w == NULL) {
+	if (u == NULL) {
 	    Cudd_RecursiveDeref(dd, v);
 	    Cudd_RecursiveDeref(dd, w);
 	    return(NULL);
-- 
2.43.0


From 2e4377fe87c8f28c656cde60ffc0798662d369ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:42 +0000
Subject: [PATCH 064/103] fix: Cudd_ShuffleHeap left the groups of variables
 out of order

---
 lib/cudd-3.0.0/cudd/cuddReorder.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/cudd-3.0.0/cudd/cuddReorder.c b/lib/cudd-3.0.0/cudd/cuddReorder.c
index 267cc54..8f344da 100644
--- a/lib/cudd-3.0.0/cudd/cuddReorder.c
+++ b/lib/cudd-3.0.0/cudd/cuddReorder.c
@@ -329,6 +329,8 @@ Cudd_ShuffleHeap(
     FREE(perm);
 
     result = ddShuffle(table,permutation);
+    if (result && table->tree != NULL)
+	Mtr_ReorderGroups(table->tree,table->perm);
 
     if (!ddReorderPostprocess(table)) return(0);
 
-- 
2.43.0


From 7b68d867559218bb638bbc24453384385a5a9b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:42 +0000
Subject: [PATCH 065/103] fix: CUDD_REORDER_RANDOM_PIVOT moved variables
 outside of their group

---
 lib/cudd-3.0.0/cudd/cuddReorder.c  | 2 +-
 lib/cudd-3.0.0/cudd/cuddZddReord.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddReorder.c b/lib/cudd-3.0.0/cudd/cuddReorder.c
index 8f344da..09e7328 100644
--- a/lib/cudd-3.0.0/cudd/cuddReorder.c
+++ b/lib/cudd-3.0.0/cudd/cuddReorder.c
@@ -604,7 +604,7 @@ cuddSwapping(
 		x = lower;
 	    } else{
 		do {
-		    x = (int) Cudd_Random(table) % modulo;
+		    x = lower + ((int) Cudd_Random(table) % modulo);
 		} while (x == y);
 	    }
 	} else {
diff --git a/lib/cudd-3.0.0/cudd/cuddZddReord.c b/lib/cudd-3.0.0/cudd/cuddZddReord.c
index d443e5e..df39875 100644
--- a/lib/cudd-3.0.0/cudd/cuddZddReord.c
+++ b/lib/cudd-3.0.0/cudd/cuddZddReord.c
@@ -731,8 +731,8 @@ cuddZddSwapping(
 	    if (modulo < 1) {	/* if pivot = 1 or 0 */
 		x = lower;
 	    } else {
-		do { /* x = random # from {0 .. pivot-2} */
-		    x = (int) Cudd_Random(table) % modulo;
+		do { /* x = random # from {lower .. pivot-2} */
+		    x = lower + ((int) Cudd_Random(table) % modulo);
 		} while (x == y);
 		  /* Is this condition really needed, since x and y
 		     are in regions separated by pivot? */
-- 
2.43.0


From b62c9678398b7d4270b59d2fa09eebd69fe98e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:42 +0000
Subject: [PATCH 066/103] fix: reordering of zero-suppressed diagrams left the
 groups of variables out of order

---
 lib/cudd-3.0.0/cudd/cuddZddGroup.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/cudd-3.0.0/cudd/cuddZddGroup.c b/lib/cudd-3.0.0/cudd/cuddZddGroup.c
index 2068891..168cc63 100644
--- a/lib/cudd-3.0.0/cudd/cuddZddGroup.c
+++ b/lib/cudd-3.0.0/cudd/cuddZddGroup.c
@@ -280,6 +280,8 @@ cuddZddTreeSifting(
 
     if (tempTree)
 	Cudd_FreeZddTree(table);
+    else
+	Mtr_ReorderGroups(table->treeZ, table->permZ);
     return(result);
 
 } /* end of cuddZddTreeSifting */
-- 
2.43.0


From 11353e7f760c6db9d361e37f6c908c3a584c0642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:02 +0000
Subject: [PATCH 067/103] fix: the core finder called slugs with an option that
 no longer exists

---
 tools/findMinimalUnrealizableCore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/findMinimalUnrealizableCore.py b/tools/findMinimalUnrealizableCore.py
index 94e7cdc..867c48e 100755
--- a/tools/findMinimalUnrealizableCore.py
+++ b/tools/findMinimalUnrealizableCore.py
@@ -20,7 +20,7 @@ def isRealizable():
     # =====================================================
     # Slugs
     # =====================================================
-    command = slugsExecutableAndBasicOptions + " --onlyRealizability /tmp/core.slugsin 2> "+slugsReturnFile
+    command = slugsExecutableAndBasicOptions + " /tmp/core.slugsin 2> "+slugsReturnFile
     retValue = os.system(command)
     if (retValue!=0):
         print >>sys.stderr, "Slugs failed!"
-- 
2.43.0


From 0df970df506058e592b5cc6685a99fd8226d5668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:03 +0000
Subject: [PATCH 068/103] fix: st_delete corrupted hash tables that move found
 entries to the front

---
 lib/cudd-3.0.0/st/st.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/cudd-3.0.0/st/st.c b/lib/cudd-3.0.0/st/st.c
index 7138fe0..0ea5e3c 100644
--- a/lib/cudd-3.0.0/st/st.c
+++ b/lib/cudd-3.0.0/st/st.c
@@ -199,6 +199,7 @@ struct st_generator {
 	*(last) = (ptr)->next;\
 	(ptr)->next = (table)->bins[hash_val];\
 	(table)->bins[hash_val] = (ptr);\
+	(last) = &(table)->bins[hash_val];\
     }
 
 /**
-- 
2.43.0


From c463817c64ffd8131d43039c8e13de7fd3231982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:28 +0000
Subject: [PATCH 069/103] fix: Mtr_MakeGroup accepted groups that cut an
 existing group; Mtr_FindGroup and Mtr_ReadGroups ran off lists and buffers

---
 lib/cudd-3.0.0/mtr/mtrGroup.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/cudd-3.0.0/mtr/mtrGroup.c b/lib/cudd-3.0.0/mtr/mtrGroup.c
index 899a0d4..1f313c3 100644
--- a/lib/cudd-3.0.0/mtr/mtrGroup.c
+++ b/lib/cudd-3.0.0/mtr/mtrGroup.c
@@ -275,6 +275,10 @@ Mtr_MakeGroup(
 	/* Trying to cut an existing group: not allowed. */
 	return(NULL);
     }
+    if (last->younger != NULL && low + size > last->younger->low) {
+	/* Trying to cut an existing group: not allowed. */
+	return(NULL);
+    }
 
     /* First and last point to the first and last of the children of
     ** root that are included in the new group. Allocate a new node
@@ -408,9 +412,11 @@ Mtr_FindGroup(
     ** the group of any child entirely contains the new group, call
     ** Mtr_MakeGroup recursively.  */
     node = root->child;
-    while (low >= (unsigned int) (node->low + node->size)) {
+    while (node != NULL && low >= (unsigned int) (node->low + node->size)) {
 	node = node->younger;
     }
+    if (node == NULL)
+	return(NULL);
     if (low + size <= (unsigned int) (node->low + node->size)) {
 	/* The group is contained in the group of node. */
 	node = Mtr_FindGroup(node, low, size);
@@ -731,7 +737,7 @@ Mtr_ReadGroups(
     unsigned int flags;
     MtrNode *root;
     MtrNode *node;
-    char attrib[8*sizeof(unsigned int)+1];
+    char attrib[8*sizeof(unsigned int)+2];
     char *c;
 
     root = Mtr_InitGroupTree(0,nleaves);
@@ -739,7 +745,7 @@ Mtr_ReadGroups(
 
     while (! feof(fp)) {
 	/* Read a triple and check for consistency. */
-	err = fscanf(fp, "%d %d %s", &low, &size, attrib);
+	err = fscanf(fp, "%d %d %33s", &low, &size, attrib);
 	if (err == EOF) {
 	    break;
 	} else if (err != 3) {
@@ -776,6 +782,7 @@ Mtr_ReadGroups(
 		flags |= MTR_TERMINAL;
 		break;
 	    default:
+		Mtr_FreeTree(root);
 		return NULL;
 	    }
 	}
-- 
2.43.0


From a7ae1f0bf3b37c7dc40554ad06972d6c4a2550fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:28 +0000
Subject: [PATCH 070/103] fix: extended-exponent numbers mistreated denormal
 numbers and small powers of two

---
 lib/cudd-3.0.0/epd/epd.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/cudd-3.0.0/epd/epd.c b/lib/cudd-3.0.0/epd/epd.c
index a3cb7d8..9ca5ce8 100644
--- a/lib/cudd-3.0.0/epd/epd.c
+++ b/lib/cudd-3.0.0/epd/epd.c
@@ -757,7 +757,7 @@ EpdSubtract3(EpDouble const *epd1, EpDouble const *epd2, EpDouble *epd3)
 void
 EpdPow2(int n, EpDouble *epd)
 {
-  if (n <= EPD_MAX_BIN) {
+  if (n <= EPD_MAX_BIN && n >= -EPD_MAX_BIN) {
     EpdConvert(pow((double)2.0, (double)n), epd);
   } else {
     EpDouble	epd1, epd2;
@@ -778,7 +778,7 @@ EpdPow2(int n, EpDouble *epd)
 void
 EpdPow2Decimal(int n, EpDouble *epd)
 {
-  if (n <= EPD_MAX_BIN) {
+  if (n <= EPD_MAX_BIN && n > -EPD_MAX_BIN) {
     epd->type.value = pow((double)2.0, (double)n);
     epd->exponent = 0;
     EpdNormalizeDecimal(epd);
@@ -816,6 +816,11 @@ EpdNormalize(EpDouble *epd)
   exponent = EpdGetExponent(epd->type.value);
   if (exponent == EPD_MAX_BIN)
     return;
+  if (exponent == 0) {		/* denormal: give it a normal exponent */
+    epd->type.value *= pow((double)2.0, (double)EPD_MAX_BIN);
+    epd->exponent -= EPD_MAX_BIN;
+    exponent = EpdGetExponent(epd->type.value);
+  }
   exponent -= EPD_MAX_BIN;
   epd->type.bits.exponent = EPD_MAX_BIN;
   epd->exponent += exponent;
-- 
2.43.0


From 7ceab16e8abf9dfe11894ff4b57591321221a4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:28 +0000
Subject: [PATCH 071/103] fix: extended-exponent numbers: infinity subtracted
 from a number kept its sign, and some NaNs were taken for numbers

---
 lib/cudd-3.0.0/epd/epd.c | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/lib/cudd-3.0.0/epd/epd.c b/lib/cudd-3.0.0/epd/epd.c
index 9ca5ce8..195109f 100644
--- a/lib/cudd-3.0.0/epd/epd.c
+++ b/lib/cudd-3.0.0/epd/epd.c
@@ -606,7 +606,8 @@ EpdSubtract(EpDouble *epd1, double value)
       if (sign == 0)
 	EpdMakeNan(epd1);
     } else if (EpdIsInf(&epd2)) {
-      EpdCopy(&epd2, epd1);
+      sign = epd2.type.bits.sign ^ 0x1;
+      EpdMakeInf(epd1, sign);
     }
     return;
   }
@@ -658,7 +659,8 @@ EpdSubtract2(EpDouble *epd1, EpDouble const *epd2)
       if (sign == 0)
 	EpdMakeNan(epd1);
     } else if (EpdIsInf(epd2)) {
-      EpdCopy(epd2, epd1);
+      sign = epd2->type.bits.sign ^ 0x1;
+      EpdMakeInf(epd1, sign);
     }
     return;
   }
@@ -1038,11 +1040,8 @@ IsNanDouble(double value)
   EpType	val;
   
   val.value = value;
-  if (val.nan.exponent == EPD_EXP_INF &&
-      val.nan.sign == 1 &&
-      val.nan.quiet_bit == 1 &&
-      val.nan.mantissa0 == 0 &&
-      val.nan.mantissa1 == 0) {
+  if (val.bits.exponent == EPD_EXP_INF &&
+      (val.bits.mantissa0 != 0 || val.bits.mantissa1 != 0)) {
     return(1);
   }
   return(0);
@@ -1058,10 +1057,7 @@ IsNanOrInfDouble(double value)
   EpType	val;
 
   val.value = value;
-  if (val.nan.exponent == EPD_EXP_INF &&
-      val.nan.mantissa0 == 0 &&
-      val.nan.mantissa1 == 0 &&
-      (val.nan.sign == 1 || val.nan.quiet_bit == 0)) {
+  if (val.bits.exponent == EPD_EXP_INF) {
     return(1);
   }
   return(0);
-- 
2.43.0


From 647d4b54521ea8ab83e7ef3d3250bbeb50431e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:28 +0000
Subject: [PATCH 072/103] fix: sums of zero and a small extended-exponent
 number lost the number

---
 lib/cudd-3.0.0/epd/epd.c | 41 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/lib/cudd-3.0.0/epd/epd.c b/lib/cudd-3.0.0/epd/epd.c
index 195109f..5170c23 100644
--- a/lib/cudd-3.0.0/epd/epd.c
+++ b/lib/cudd-3.0.0/epd/epd.c
@@ -446,6 +446,12 @@ EpdAdd(EpDouble *epd1, double value)
   assert(epd1->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd1));
 
   EpdConvert(value, &epd2);
+  if (EpdIsZero(&epd2)) {
+    return;
+  } else if (EpdIsZero(epd1)) {
+    EpdCopy(&epd2, epd1);
+    return;
+  }
   if (epd1->exponent > epd2.exponent) {
     diff = epd1->exponent - epd2.exponent;
     if (diff <= EPD_MAX_BIN)
@@ -500,6 +506,12 @@ EpdAdd2(EpDouble *epd1, EpDouble const *epd2)
   assert(epd1->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd1));
   assert(epd2->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd2));
 
+  if (EpdIsZero(epd2)) {
+    return;
+  } else if (EpdIsZero(epd1)) {
+    EpdCopy(epd2, epd1);
+    return;
+  }
   if (epd1->exponent > epd2->exponent) {
     diff = epd1->exponent - epd2->exponent;
     if (diff <= EPD_MAX_BIN) {
@@ -558,6 +570,13 @@ EpdAdd3(EpDouble const *epd1, EpDouble const *epd2, EpDouble *epd3)
   assert(epd1->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd1));
   assert(epd2->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd2));
 
+  if (EpdIsZero(epd2)) {
+    EpdCopy(epd1, epd3);
+    return;
+  } else if (EpdIsZero(epd1)) {
+    EpdCopy(epd2, epd3);
+    return;
+  }
   if (epd1->exponent > epd2->exponent) {
     diff = epd1->exponent - epd2->exponent;
     if (diff <= EPD_MAX_BIN) {
@@ -615,6 +634,13 @@ EpdSubtract(EpDouble *epd1, double value)
   assert(epd1->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd1));
 
   EpdConvert(value, &epd2);
+  if (EpdIsZero(&epd2)) {
+    return;
+  } else if (EpdIsZero(epd1)) {
+    EpdCopy(&epd2, epd1);
+    epd1->type.value *= -1.0;
+    return;
+  }
   if (epd1->exponent > epd2.exponent) {
     diff = epd1->exponent - epd2.exponent;
     if (diff <= EPD_MAX_BIN)
@@ -668,6 +694,13 @@ EpdSubtract2(EpDouble *epd1, EpDouble const *epd2)
   assert(epd1->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd1));
   assert(epd2->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd2));
 
+  if (EpdIsZero(epd2)) {
+    return;
+  } else if (EpdIsZero(epd1)) {
+    EpdCopy(epd2, epd1);
+    epd1->type.value *= -1.0;
+    return;
+  }
   if (epd1->exponent > epd2->exponent) {
     diff = epd1->exponent - epd2->exponent;
     if (diff <= EPD_MAX_BIN) {
@@ -727,6 +760,14 @@ EpdSubtract3(EpDouble const *epd1, EpDouble const *epd2, EpDouble *epd3)
   assert(epd1->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd1));
   assert(epd2->type.bits.exponent == EPD_MAX_BIN || EpdIsZero(epd2));
 
+  if (EpdIsZero(epd2)) {
+    EpdCopy(epd1, epd3);
+    return;
+  } else if (EpdIsZero(epd1)) {
+    EpdCopy(epd2, epd3);
+    epd3->type.value *= -1.0;
+    return;
+  }
   if (epd1->exponent > epd2->exponent) {
     diff = epd1->exponent - epd2->exponent;
     if (diff <= EPD_MAX_BIN) {
-- 
2.43.0


From 257f0cf7949d2d9a69d929e7465e73cec62f4058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:28 +0000
Subject: [PATCH 073/103] fix: Cudd_ApaIntDivision rounded, and with it ratios
 and densities

---
 lib/cudd-3.0.0/cudd/cuddApa.c | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddApa.c b/lib/cudd-3.0.0/cudd/cuddApa.c
index 87dca2c..2930e63 100644
--- a/lib/cudd-3.0.0/cudd/cuddApa.c
+++ b/lib/cudd-3.0.0/cudd/cuddApa.c
@@ -292,20 +292,12 @@ Cudd_ApaShortDivision(
   @brief Divides an arbitrary precision integer by an integer.
 
   @details Divides an arbitrary precision integer by a 32-bit unsigned
-  integer. This procedure relies on the assumption that the number of
-  bits of a DdApaDigit plus the number of bits of an unsigned int is
-  less the number of bits of the mantissa of a double. This guarantees
-  that the product of a DdApaDigit and an unsigned int can be
-  represented without loss of precision by a double. On machines where
-  this assumption is not satisfied, this procedure will malfunction.
+  integer.
 
   @return the remainder.
 
   @sideeffect The quotient is returned in parameter <code>quotient</code>.
 
-  @deprecated The assumption on which the correctness of this function rests
-  is not satisfied by modern-day 64-bit CPUs.
-
   @see Cudd_ApaShortDivision
 
 */
@@ -317,14 +309,13 @@ Cudd_ApaIntDivision(
   DdApaNumber quotient)
 {
     int i;
-    double partial;
+    DdApaDoubleDigit partial;
     unsigned int remainder = 0;
-    double ddiv = (double) divisor;
 
     for (i = 0; i < digits; i++) {
-	partial = (double) remainder * DD_APA_BASE + dividend[i];
-	quotient[i] = (DdApaDigit) (partial / ddiv);
-	remainder = (unsigned int) (partial - ((double)quotient[i] * ddiv));
+	partial = remainder * DD_APA_BASE + dividend[i];
+	quotient[i] = (DdApaDigit) (partial / divisor);
+	remainder = (unsigned int) (partial % divisor);
     }
 
     return(remainder);
-- 
2.43.0


From 61cee6ea927a89aff57e70465a4a4afcff3ff439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:47 +0000
Subject: [PATCH 074/103] fix: arbitrary-precision numbers rounded up to a
 power of ten lost their digits, and densities their leading zeros

---
 lib/cudd-3.0.0/cudd/cuddApa.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddApa.c b/lib/cudd-3.0.0/cudd/cuddApa.c
index 2930e63..fcd049b 100644
--- a/lib/cudd-3.0.0/cudd/cuddApa.c
+++ b/lib/cudd-3.0.0/cudd/cuddApa.c
@@ -711,6 +711,10 @@ Cudd_ApaPrintExponential(
         }
     }
 
+    /* The carry may have reached a new most significant digit. */
+    if (first > 0 && decimal[first - 1] != 0)
+        first--;
+
     /* Don't print trailing zeros. */
     while (last > first && decimal[last - 1] == 0)
         last--;
@@ -915,7 +919,7 @@ Cudd_ApaPrintDensity(
     FREE(count);
     FREE(density);
     fractional = (unsigned int)((double)remainder / size * 1000000);
-    if (fprintf(fp,".%u\n", fractional) == EOF) {
+    if (fprintf(fp,".%06u\n", fractional) == EOF) {
 	return(0);
     }
     return(result);
-- 
2.43.0


From ed8047b86c4cc3024b22b0480b6a3378294ff1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:54 +0000
Subject: [PATCH 075/103] fix: EpdSubtract3 took the difference of equal
 infinities for infinity and of opposite ones for NaN

---
 lib/cudd-3.0.0/epd/epd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/cudd-3.0.0/epd/epd.c b/lib/cudd-3.0.0/epd/epd.c
index 5170c23..3940014 100644
--- a/lib/cudd-3.0.0/epd/epd.c
+++ b/lib/cudd-3.0.0/epd/epd.c
@@ -744,7 +744,7 @@ EpdSubtract3(EpDouble const *epd1, EpDouble const *epd2, EpDouble *epd3)
 
     if (EpdIsInf(epd1) && EpdIsInf(epd2)) {
       sign = epd1->type.bits.sign ^ epd2->type.bits.sign;
-      if (sign == 0)
+      if (sign == 1)
 	EpdCopy(epd1, epd3);
       else
 	EpdMakeNan(epd3);
-- 
2.43.0


From 7898aa785a825ab5c38280b707f83243239e6bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:35 +0000
Subject: [PATCH 076/103] fix: saving diagrams lost constant nodes from the
 manager's table

---
 lib/cudd-3.0.0/dddmp/dddmpInt.h     |  2 +
 lib/cudd-3.0.0/dddmp/dddmpNodeAdd.c |  7 +--
 lib/cudd-3.0.0/dddmp/dddmpNodeBdd.c |  7 +--
 lib/cudd-3.0.0/dddmp/dddmpNodeCnf.c |  3 +-
 lib/cudd-3.0.0/dddmp/dddmpUtil.c    | 93 +++++++++++++++++++++++++++++
 5 files changed, 103 insertions(+), 9 deletions(-)

diff --git a/lib/cudd-3.0.0/dddmp/dddmpInt.h b/lib/cudd-3.0.0/dddmp/dddmpInt.h
index 7d0f54d..c6ec121 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpInt.h
+++ b/lib/cudd-3.0.0/dddmp/dddmpInt.h
@@ -172,6 +172,8 @@ extern int DddmpWriteCode(FILE *fp, struct binary_dd_code code);
 extern int DddmpReadCode(FILE *fp, struct binary_dd_code *pcode);
 extern int DddmpWriteInt(FILE *fp, int id);
 extern int DddmpReadInt(FILE *fp, int *pid);
+extern void DddmpRemoveConstant(DdManager *ddMgr, DdNode *f);
+extern void DddmpRestoreConstant(DdManager *ddMgr, DdNode *f);
 extern int DddmpNumberAddNodes(DdManager *ddMgr, DdNode **f, int n);
 extern void DddmpUnnumberAddNodes(DdManager *ddMgr, DdNode **f, int n);
 extern void DddmpWriteNodeIndexAdd(DdNode *f, int id);
diff --git a/lib/cudd-3.0.0/dddmp/dddmpNodeAdd.c b/lib/cudd-3.0.0/dddmp/dddmpNodeAdd.c
index 5185c57..8ca990d 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpNodeAdd.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpNodeAdd.c
@@ -361,6 +361,8 @@ RemoveFromUniqueRecurAdd (
 
     f->next = NULL;
 
+  } else {
+    DddmpRemoveConstant (ddMgr, f);
   }
 
   DddmpSetVisitedAdd (f);
@@ -403,10 +405,7 @@ RestoreInUniqueRecurAdd (
   }
 
   if (cuddIsConstant (f)) {
-    /* StQ 11.02.2004:
-       Bug fixed --> restore NULL within the next field */
-    /*DddmpClearVisitedAdd (f);*/
-    f->next = NULL;
+    DddmpRestoreConstant (ddMgr, f);
 
     return;
   }
diff --git a/lib/cudd-3.0.0/dddmp/dddmpNodeBdd.c b/lib/cudd-3.0.0/dddmp/dddmpNodeBdd.c
index 8699a91..4e97abb 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpNodeBdd.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpNodeBdd.c
@@ -362,6 +362,8 @@ RemoveFromUniqueRecurBdd (
 
     f->next = NULL;
 
+  } else {
+    DddmpRemoveConstant (ddMgr, f);
   }
 
   DddmpSetVisitedBdd (f);
@@ -404,10 +406,7 @@ RestoreInUniqueRecurBdd (
   }
 
   if (cuddIsConstant (f)) {
-    /* StQ 11.02.2004:
-       Bug fixed --> restore NULL within the next field */
-    /*DddmpClearVisitedBdd (f);*/   
-    f->next = NULL;
+    DddmpRestoreConstant (ddMgr, f);
 
     return;
   }
diff --git a/lib/cudd-3.0.0/dddmp/dddmpNodeCnf.c b/lib/cudd-3.0.0/dddmp/dddmpNodeCnf.c
index 1aacadc..58a41bf 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpNodeCnf.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpNodeCnf.c
@@ -787,9 +787,10 @@ RemoveFromUniqueRecurCnf (
 
     f->next = NULL;
 
+    DddmpSetVisitedCnf (f);
+
   }
 
-  DddmpSetVisitedCnf (f);
 
   return;
 }
diff --git a/lib/cudd-3.0.0/dddmp/dddmpUtil.c b/lib/cudd-3.0.0/dddmp/dddmpUtil.c
index feff439..0967518 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpUtil.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpUtil.c
@@ -49,6 +49,7 @@
 /* Static function prototypes                                                */
 /*---------------------------------------------------------------------------*/
 
+static DdNodePtr * ConstantList(DdManager *ddMgr, DdNode *f);
 
 /**AutomaticEnd***************************************************************/
 
@@ -434,3 +435,95 @@ DddmpIntArrayWrite (
 /* Definition of static functions                                            */
 /*---------------------------------------------------------------------------*/
 
+/**Function********************************************************************
+
+  Synopsis     [Removes a constant node from the table of the constants]
+
+  Description  [Removes a constant node from the table of the constants,
+    whose lists are linked by the field that stores the numbers of the nodes.
+    ]
+
+  SideEffects  [None]
+
+  SeeAlso      [DddmpRestoreConstant]
+
+******************************************************************************/
+
+void
+DddmpRemoveConstant (
+  DdManager *ddMgr  /* IN: DD Manager */,
+  DdNode *f         /* IN: constant node, in the table */
+  )
+{
+  DdNodePtr *previousP;
+
+  previousP = ConstantList (ddMgr, f);
+  while (*previousP != f) {
+    previousP = &((*previousP)->next);
+  }
+  *previousP = f->next;
+  f->next = NULL;
+
+  return;
+}
+
+/**Function********************************************************************
+
+  Synopsis     [Puts a constant node back into the table of the constants]
+
+  Description  [Puts a constant node back into the table of the constants]
+
+  SideEffects  [None]
+
+  SeeAlso      [DddmpRemoveConstant]
+
+******************************************************************************/
+
+void
+DddmpRestoreConstant (
+  DdManager *ddMgr  /* IN: DD Manager */,
+  DdNode *f         /* IN: constant node, removed from the table */
+  )
+{
+  DdNodePtr *list;
+
+  list = ConstantList (ddMgr, f);
+  f->next = *list;
+  *list = f;
+
+  return;
+}
+
+/*---------------------------------------------------------------------------*/
+/* Definition of static functions                                            */
+/*---------------------------------------------------------------------------*/
+
+/**Function********************************************************************
+
+  Synopsis     [Returns the list of the table of the constants for a node]
+
+  Description  [Returns the list of the table of the constants for a node.
+    It is the one that cuddUniqueConst looks the value up in.
+    ]
+
+  SideEffects  [None]
+
+  SeeAlso      []
+
+******************************************************************************/
+
+static DdNodePtr *
+ConstantList (
+  DdManager *ddMgr  /* IN: DD Manager */,
+  DdNode *f         /* IN: constant node */
+  )
+{
+  union {
+    CUDD_VALUE_TYPE value;
+    unsigned int bits[2];
+  } split;
+
+  split.value = cuddV (f);
+  return (&(ddMgr->constants.nodelist[ddHash (split.bits[0], split.bits[1],
+    ddMgr->constants.shift)]));
+}
-- 
2.43.0


From 1b39e006bc12b62903a585cbbc5749819f3206b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:51 +0000
Subject: [PATCH 077/103] fix: missing roots crashed the store and load
 functions of dddmp

---
 lib/cudd-3.0.0/dddmp/dddmpLoad.c     | 11 +++++++++--
 lib/cudd-3.0.0/dddmp/dddmpNodeAdd.c  | 12 +++++++++---
 lib/cudd-3.0.0/dddmp/dddmpNodeBdd.c  | 12 +++++++++---
 lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c |  5 ++---
 lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c |  5 ++---
 5 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/lib/cudd-3.0.0/dddmp/dddmpLoad.c b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
index a3e6baf..40ea608 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpLoad.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
@@ -118,7 +118,9 @@ Dddmp_cuddBddLoad (
         "Warning: %d BDD roots found in file. Only first retrieved.\n",
          nRoots);
       for (i=1; i<nRoots; i++) {
-        Cudd_RecursiveDeref (ddMgr, tmpArray[i]);
+        if (tmpArray[i] != NULL) {
+          Cudd_RecursiveDeref (ddMgr, tmpArray[i]);
+        }
       } 
     } 
     DDDMP_FREE (tmpArray);
@@ -281,7 +283,9 @@ Dddmp_cuddAddLoad (
         "Warning: %d BDD roots found in file. Only first retrieved.\n",
         nRoots);
       for (i=1; i<nRoots; i++) {
-        Cudd_RecursiveDeref (ddMgr, tmpArray[i]);
+        if (tmpArray[i] != NULL) {
+          Cudd_RecursiveDeref (ddMgr, tmpArray[i]);
+        }
       } 
     } 
     DDDMP_FREE (tmpArray);
@@ -1164,6 +1168,9 @@ DddmpCuddDdArrayLoad (
       }
     }
     proots[i] = f;
+    if (f == NULL) {
+      continue;
+    }
 
     cuddRef (f);
   } /* end for i = 0..nRoots */
diff --git a/lib/cudd-3.0.0/dddmp/dddmpNodeAdd.c b/lib/cudd-3.0.0/dddmp/dddmpNodeAdd.c
index 8ca990d..f80ed16 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpNodeAdd.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpNodeAdd.c
@@ -91,11 +91,15 @@ DddmpNumberAddNodes (
   int id=0, i;
 
   for (i=0; i<n; i++) {
-    RemoveFromUniqueRecurAdd (ddMgr, f[i]);
+    if (f[i] != NULL) {
+      RemoveFromUniqueRecurAdd (ddMgr, f[i]);
+    }
   }
 
   for (i=0; i<n; i++) {
-    id = NumberNodeRecurAdd (f[i], id);
+    if (f[i] != NULL) {
+      id = NumberNodeRecurAdd (f[i], id);
+    }
   }
 
   return (id);
@@ -126,7 +130,9 @@ DddmpUnnumberAddNodes (
   int i;
 
   for (i=0; i<n; i++) {
-    RestoreInUniqueRecurAdd (ddMgr, f[i]);
+    if (f[i] != NULL) {
+      RestoreInUniqueRecurAdd (ddMgr, f[i]);
+    }
   }
 
   return;
diff --git a/lib/cudd-3.0.0/dddmp/dddmpNodeBdd.c b/lib/cudd-3.0.0/dddmp/dddmpNodeBdd.c
index 4e97abb..d4c620e 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpNodeBdd.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpNodeBdd.c
@@ -91,11 +91,15 @@ DddmpNumberBddNodes (
   int id=0, i;
 
   for (i=0; i<n; i++) {
-    RemoveFromUniqueRecurBdd (ddMgr, f[i]);
+    if (f[i] != NULL) {
+      RemoveFromUniqueRecurBdd (ddMgr, f[i]);
+    }
   }
 
   for (i=0; i<n; i++) {
-    id = NumberNodeRecurBdd (f[i], id);
+    if (f[i] != NULL) {
+      id = NumberNodeRecurBdd (f[i], id);
+    }
   }
 
   return (id);
@@ -126,7 +130,9 @@ DddmpUnnumberBddNodes(
   int i;
 
   for (i=0; i<n; i++) {
-    RestoreInUniqueRecurBdd (ddMgr, f[i]);
+    if (f[i] != NULL) {
+      RestoreInUniqueRecurBdd (ddMgr, f[i]);
+    }
   }
 
   return;
diff --git a/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c b/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c
index b304a88..93e99bd 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c
@@ -554,7 +554,7 @@ DddmpCuddDdArrayStoreBdd (
         rootnames[i] = DDDMP_ALLOC(char,10);
         Dddmp_CheckAndGotoLabel (rootnames[i]==NULL,
           "Error writing to file.", failure);
-        sprintf(rootnames[ids[i]], "ROOT%d",i);
+        sprintf(rootnames[i], "ROOT%d",i);
       }
       retValue = fprintf (fp, " %s", rootnames[i]);
       Dddmp_CheckAndGotoLabel (retValue==EOF, "Error writing to file.",
@@ -580,8 +580,7 @@ DddmpCuddDdArrayStoreBdd (
       (void) fprintf (stderr, "DdStore Warning: %d-th root is NULL\n",i);
       fflush (stderr);
       retValue = fprintf (fp, " 0");
-    }
-    if (Cudd_IsComplement(f[i])) {
+    } else if (Cudd_IsComplement(f[i])) {
       retValue = fprintf (fp, " -%d",
         DddmpReadNodeIndexAdd (Cudd_Regular (f[i])));
     } else {
diff --git a/lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c b/lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c
index aa9ee44..0b924ff 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c
@@ -561,7 +561,7 @@ DddmpCuddBddArrayStore (
         rootnames[i] = DDDMP_ALLOC(char,10);
         Dddmp_CheckAndGotoLabel (rootnames[i]==NULL,
           "Error writing to file.", failure);
-        sprintf(rootnames[ids[i]], "ROOT%d",i);
+        sprintf(rootnames[i], "ROOT%d",i);
       }
       retValue = fprintf (fp, " %s", rootnames[i]);
       Dddmp_CheckAndGotoLabel (retValue==EOF, "Error writing to file.",
@@ -587,8 +587,7 @@ DddmpCuddBddArrayStore (
       (void) fprintf (stderr, "DdStore Warning: %d-th root is NULL\n",i);
       fflush (stderr);
       retValue = fprintf (fp, " 0");
-    }
-    if (Cudd_IsComplement(f[i])) {
+    } else if (Cudd_IsComplement(f[i])) {
       retValue = fprintf (fp, " -%d",
         DddmpReadNodeIndexBdd (Cudd_Regular (f[i])));
     } else {
-- 
2.43.0


From e7bd4b50fe69cfc1c87c5f3e080429cd23fb81d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:01 +0000
Subject: [PATCH 078/103] fix: made-up names of variables in dddmp files
 clashed

---
 lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c | 12 +++++++-----
 lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c b/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c
index 93e99bd..24cfd02 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c
@@ -427,7 +427,7 @@ DddmpCuddDdArrayStoreBdd (
           (void) fprintf (stderr,
              "DdStore Warning: null variable name. DUMMY%d generated\n", i);
           fflush (stderr);
-          varnames[ids[i]] = DDDMP_ALLOC (char, 10);
+          varnames[ids[i]] = DDDMP_ALLOC (char, 20);
           Dddmp_CheckAndGotoLabel (varnames[ids[i]] == NULL,
             "Error allocating memory.", failure);
           sprintf (varnames[ids[i]], "DUMMY%d", i);
@@ -453,12 +453,14 @@ DddmpCuddDdArrayStoreBdd (
     for (i=0; i<nVars; i++) {
       if (varnames[ddMgr->invperm[i]] == NULL) {
           (void) fprintf (stderr,
-           "DdStore Warning: null variable name. DUMMY%d generated\n", i);
+           "DdStore Warning: null variable name. DUMMY%d generated\n",
+           ddMgr->invperm[i]);
         fflush (stderr);
-        varnames[ddMgr->invperm[i]] = DDDMP_ALLOC (char, 10);
+        varnames[ddMgr->invperm[i]] = DDDMP_ALLOC (char, 20);
         Dddmp_CheckAndGotoLabel (varnames[ddMgr->invperm[i]] == NULL,
           "Error allocating memory.", failure);
-        sprintf (varnames[ddMgr->invperm[i]], "DUMMY%d", i);
+        sprintf (varnames[ddMgr->invperm[i]], "DUMMY%d",
+          ddMgr->invperm[i]);
       }
 
       retValue = fprintf (fp, " %s", varnames[ddMgr->invperm[i]]);
@@ -551,7 +553,7 @@ DddmpCuddDdArrayStoreBdd (
         (void) fprintf (stderr,
           "DdStore Warning: null variable name. ROOT%d generated\n",i);
         fflush (stderr);
-        rootnames[i] = DDDMP_ALLOC(char,10);
+        rootnames[i] = DDDMP_ALLOC(char,20);
         Dddmp_CheckAndGotoLabel (rootnames[i]==NULL,
           "Error writing to file.", failure);
         sprintf(rootnames[i], "ROOT%d",i);
diff --git a/lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c b/lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c
index 0b924ff..e3ec10e 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c
@@ -434,7 +434,7 @@ DddmpCuddBddArrayStore (
           (void) fprintf (stderr,
              "DdStore Warning: null variable name. DUMMY%d generated\n", i);
           fflush (stderr);
-          varnames[ids[i]] = DDDMP_ALLOC (char, 10);
+          varnames[ids[i]] = DDDMP_ALLOC (char, 20);
           Dddmp_CheckAndGotoLabel (varnames[ids[i]] == NULL,
             "Error allocating memory.", failure);
           sprintf (varnames[ids[i]], "DUMMY%d", i);
@@ -460,12 +460,14 @@ DddmpCuddBddArrayStore (
     for (i=0; i<nVars; i++) {
       if (varnames[ddMgr->invperm[i]] == NULL) {
           (void) fprintf (stderr,
-           "DdStore Warning: null variable name. DUMMY%d generated\n", i);
+           "DdStore Warning: null variable name. DUMMY%d generated\n",
+           ddMgr->invperm[i]);
         fflush (stderr);
-        varnames[ddMgr->invperm[i]] = DDDMP_ALLOC (char, 10);
+        varnames[ddMgr->invperm[i]] = DDDMP_ALLOC (char, 20);
         Dddmp_CheckAndGotoLabel (varnames[ddMgr->invperm[i]] == NULL,
           "Error allocating memory.", failure);
-        sprintf (varnames[ddMgr->invperm[i]], "DUMMY%d", i);
+        sprintf (varnames[ddMgr->invperm[i]], "DUMMY%d",
+          ddMgr->invperm[i]);
       }
 
       retValue = fprintf (fp, " %s", varnames[ddMgr->invperm[i]]);
@@ -558,7 +560,7 @@ DddmpCuddBddArrayStore (
         (void) fprintf (stderr,
           "DdStore Warning: null variable name. ROOT%d generated\n",i);
         fflush (stderr);
-        rootnames[i] = DDDMP_ALLOC(char,10);
+        rootnames[i] = DDDMP_ALLOC(char,20);
         Dddmp_CheckAndGotoLabel (rootnames[i]==NULL,
           "Error writing to file.", failure);
         sprintf(rootnames[i], "ROOT%d",i);
-- 
2.43.0


From ce33850391d9b7fc835354bc9393ad389b8a3c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:33 +0000
Subject: [PATCH 079/103] fix: saved diagrams lost digits of their constants

---
 lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c b/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c
index 24cfd02..7095766 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c
@@ -892,9 +892,9 @@ NodeTextStoreAdd (
      */
 
     if ((varnames != NULL) || (outids != NULL)) {
-      retValue = fprintf (fp, "%d T %g 0 0\n",idf,Cudd_V(f));
+      retValue = fprintf (fp, "%d T %.17g 0 0\n",idf,Cudd_V(f));
     } else {
-      retValue = fprintf (fp, "%d %g 0 0\n",idf, Cudd_V(f));
+      retValue = fprintf (fp, "%d %.17g 0 0\n",idf, Cudd_V(f));
     }
 
     if (retValue == EOF) {
-- 
2.43.0


From 26d0bb77313d159cb749e8d515ea0da479e4a847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:33 +0000
Subject: [PATCH 080/103] fix: diagrams with numbers saved in the default mode
 could not be loaded

---
 lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c b/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c
index 7095766..b276881 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c
@@ -262,20 +262,10 @@ DddmpCuddDdArrayStoreBdd (
   }
 
   /* 
-   *  Force binary mode if automatic.
+   *  Only text mode is supported for ADDs: force it if automatic.
    */
 
-  switch (mode) {
-    case DDDMP_MODE_TEXT:
-    case DDDMP_MODE_BINARY:
-      break;
-    case DDDMP_MODE_DEFAULT:
-      mode = DDDMP_MODE_BINARY;
-      break;
-    default:
-      mode = DDDMP_MODE_BINARY;
-      break;
-  }
+  mode = DDDMP_MODE_TEXT;
 
   /* 
    * Alloc vectors for variable IDs, perm IDs and support IDs.
-- 
2.43.0


From 381f08f8897453e708a5ade34a18eafcd38611ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:33 +0000
Subject: [PATCH 081/103] fix: text files saved with extra information that was
 not given could not be loaded

---
 lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c | 4 ++++
 lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c b/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c
index b276881..2ceca2e 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c
@@ -349,6 +349,10 @@ DddmpCuddDdArrayStoreBdd (
         case DDDMP_VARDEFAULT:
           break;
       }
+      /* the reader expects the extra info exactly if the header says so */
+      if (outids == NULL && outvarnames == NULL) {
+        varinfo = DDDMP_VARDEFAULT;
+      }
       break;
     case DDDMP_MODE_BINARY:
       outids = NULL;
diff --git a/lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c b/lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c
index e3ec10e..df08c4b 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c
@@ -370,6 +370,10 @@ DddmpCuddBddArrayStore (
         case DDDMP_VARDEFAULT:
           break;
       }
+      /* the reader expects the extra info exactly if the header says so */
+      if (outids == NULL && outvarnames == NULL) {
+        varinfo = DDDMP_VARDEFAULT;
+      }
       break;
     case DDDMP_MODE_BINARY:
       outids = NULL;
-- 
2.43.0


From c07c3b2af22ad48154c73ef6399ad301bf86448d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:21 +0000
Subject: [PATCH 082/103] fix: failed writes of diagrams were not noticed or
 left their nodes out of the manager's tables

---
 lib/cudd-3.0.0/dddmp/dddmpBinary.c   | 21 ++++++-------
 lib/cudd-3.0.0/dddmp/dddmpNodeAdd.c  | 44 ++++++++++++++++++++++++++++
 lib/cudd-3.0.0/dddmp/dddmpNodeBdd.c  | 44 ++++++++++++++++++++++++++++
 lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c | 13 +++++++-
 lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c | 13 +++++++-
 5 files changed, 123 insertions(+), 12 deletions(-)

diff --git a/lib/cudd-3.0.0/dddmp/dddmpBinary.c b/lib/cudd-3.0.0/dddmp/dddmpBinary.c
index a7cd674..090984f 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpBinary.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpBinary.c
@@ -178,11 +178,11 @@ DddmpWriteInt (
   for (; i>0; i--) {
     cvet[i] |= (char)1;
     if (WriteByteBinary (fp, cvet[i]) == EOF)
-      return (0);
+      return (EOF);
   }
 
   if (WriteByteBinary (fp, cvet[0]) == EOF) {
-    return (0);
+    return (EOF);
   }
 
   return (1);
@@ -223,7 +223,8 @@ DddmpReadInt (
 
  /* Check for correct format: last char should 
     be found before i = 4 */
-  assert(i<4);
+  if (i==4)
+    return (0);
 
   *pid = id;
 
@@ -262,30 +263,30 @@ WriteByteBinary (
     case 0x00: /* Escape */
       BinaryEscape = 0x00;
       if (fwrite (&BinaryEscape, sizeof(char), 1, fp) != sizeof(char))
-        return (0);
+        return (EOF);
       c = 0x00;
       break;
     case 0x0a: /* <LF> */
       BinaryEscape = 0x00;
       if (fwrite (&BinaryEscape, sizeof(char), 1, fp) != sizeof(char))
-        return (0);
+        return (EOF);
       c = 0x01;
       break;
     case 0x0d: /* <CR> */
       BinaryEscape = 0x00;
       if (fwrite (&BinaryEscape, sizeof(char), 1, fp) != sizeof(char))
-        return (0);
+        return (EOF);
       c = 0x02;
       break;
     case 0x1a: /* <ctrl-Z> */
       BinaryEscape = 0x00;
       if (fwrite (&BinaryEscape, sizeof(char), 1, fp) != sizeof(char))
-        return (0);
+        return (EOF);
       c = 0x03;
       break;
   }
   if (fwrite (&c, sizeof(char), 1, fp) != sizeof(char))
-    return (0);
+    return (EOF);
 
   return (1);
 }
@@ -313,12 +314,12 @@ ReadByteBinary (
 {
  
   if (fread (cp, sizeof(char), 1, fp) != sizeof(char)) {
-    return (0);
+    return (EOF);
   }
 
   if (*cp == 0x00) { /* Escape */
     if (fread (cp, sizeof(char), 1, fp) != sizeof(char)) {
-      return (0);
+      return (EOF);
     }
 
     switch (*cp) {
diff --git a/lib/cudd-3.0.0/dddmp/dddmpNodeAdd.c b/lib/cudd-3.0.0/dddmp/dddmpNodeAdd.c
index f80ed16..15eeb6f 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpNodeAdd.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpNodeAdd.c
@@ -52,6 +52,7 @@
 
 static int NumberNodeRecurAdd(DdNode *f, int id);
 static void RemoveFromUniqueRecurAdd(DdManager *ddMgr, DdNode *f);
+static void MarkRecurAdd(DdNode *f);
 static void RestoreInUniqueRecurAdd(DdManager *ddMgr, DdNode *f);
 
 /**AutomaticEnd***************************************************************/
@@ -129,6 +130,13 @@ DddmpUnnumberAddNodes (
 {
   int i;
 
+  /* some nodes may not have been visited */
+  for (i=0; i<n; i++) {
+    if (f[i] != NULL) {
+      MarkRecurAdd (f[i]);
+    }
+  }
+
   for (i=0; i<n; i++) {
     if (f[i] != NULL) {
       RestoreInUniqueRecurAdd (ddMgr, f[i]);
@@ -376,6 +384,42 @@ RemoveFromUniqueRecurAdd (
   return;
 }
 
+/**Function********************************************************************
+
+  Synopsis     [Replaces the number of all nodes with the visited mark]
+
+  Description  [Replaces the number of all nodes with the visited mark,
+    whether they were visited before or not.
+    ]
+
+  SideEffects  [None]
+
+  SeeAlso      [RestoreInUniqueRecurAdd ()]
+
+******************************************************************************/
+
+static void
+MarkRecurAdd (
+  DdNode *f         /*  IN: root of the BDD to be marked */
+  )
+{
+  f = Cudd_Regular (f);
+
+  /* numbers start from 1 */
+  if (f->next == (DdNode *)(ptruint) 01) {
+    return;
+  }
+
+  f->next = (DdNode *)(ptruint) 01;
+
+  if (!cuddIsConstant (f)) {
+    MarkRecurAdd (cuddT (f));
+    MarkRecurAdd (cuddE (f));
+  }
+
+  return;
+}
+
 /**Function********************************************************************
 
   Synopsis     [Restores a node in unique table]
diff --git a/lib/cudd-3.0.0/dddmp/dddmpNodeBdd.c b/lib/cudd-3.0.0/dddmp/dddmpNodeBdd.c
index d4c620e..0a34eb5 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpNodeBdd.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpNodeBdd.c
@@ -52,6 +52,7 @@
 
 static int NumberNodeRecurBdd(DdNode *f, int id);
 static void RemoveFromUniqueRecurBdd(DdManager *ddMgr, DdNode *f);
+static void MarkRecurBdd(DdNode *f);
 static void RestoreInUniqueRecurBdd(DdManager *ddMgr, DdNode *f);
 
 /**AutomaticEnd***************************************************************/
@@ -129,6 +130,13 @@ DddmpUnnumberBddNodes(
 {
   int i;
 
+  /* some nodes may not have been visited */
+  for (i=0; i<n; i++) {
+    if (f[i] != NULL) {
+      MarkRecurBdd (f[i]);
+    }
+  }
+
   for (i=0; i<n; i++) {
     if (f[i] != NULL) {
       RestoreInUniqueRecurBdd (ddMgr, f[i]);
@@ -377,6 +385,42 @@ RemoveFromUniqueRecurBdd (
   return;
 }
 
+/**Function********************************************************************
+
+  Synopsis     [Replaces the number of all nodes with the visited mark]
+
+  Description  [Replaces the number of all nodes with the visited mark,
+    whether they were visited before or not.
+    ]
+
+  SideEffects  [None]
+
+  SeeAlso      [RestoreInUniqueRecurBdd ()]
+
+******************************************************************************/
+
+static void
+MarkRecurBdd (
+  DdNode *f         /*  IN: root of the BDD to be marked */
+  )
+{
+  f = Cudd_Regular (f);
+
+  /* numbers start from 1 */
+  if (f->next == (DdNode *)(ptruint) 01) {
+    return;
+  }
+
+  f->next = (DdNode *)(ptruint) 01;
+
+  if (!cuddIsConstant (f)) {
+    MarkRecurBdd (cuddT (f));
+    MarkRecurBdd (cuddE (f));
+  }
+
+  return;
+}
+
 /**Function********************************************************************
 
   Synopsis     [Restores a node in unique table]
diff --git a/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c b/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c
index 2ceca2e..19fc070 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpStoreAdd.c
@@ -240,6 +240,7 @@ DddmpCuddDdArrayStoreBdd (
   int retValue;
   int i, var;
   int fileToClose = 0;
+  int numbered = 0;
 
   /* 
    *  Check DD Type and Mode
@@ -364,6 +365,7 @@ DddmpCuddDdArrayStoreBdd (
    */
 
   nnodes = DddmpNumberAddNodes (ddMgr, f, nRoots);
+  numbered = 1;
 
   /* 
    * Start Header
@@ -621,7 +623,10 @@ DddmpCuddDdArrayStoreBdd (
     failure);
 
   if (fileToClose) {
-    fclose (fp);
+    fileToClose = 0;
+    retValue = fclose (fp);
+    Dddmp_CheckAndGotoLabel (retValue==EOF, "Error writing to file.",
+      failure);
   }
 
   DddmpUnnumberAddNodes (ddMgr, f, nRoots);
@@ -634,6 +639,12 @@ DddmpCuddDdArrayStoreBdd (
 
   failure:
 
+    if (fileToClose) {
+      fclose (fp);
+    }
+    if (numbered) {
+      DddmpUnnumberAddNodes (ddMgr, f, nRoots);
+    }
     if (ids != NULL) {
       DDDMP_FREE (ids);
     }
diff --git a/lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c b/lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c
index df08c4b..4ff024d 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c
@@ -253,6 +253,7 @@ DddmpCuddBddArrayStore (
   int retValue;
   int i, var;
   int fileToClose = 0;
+  int numbered = 0;
 
   /* 
    *  Check DD Type
@@ -385,6 +386,7 @@ DddmpCuddBddArrayStore (
    */
 
   nnodes = DddmpNumberBddNodes (ddMgr, f, nRoots);
+  numbered = 1;
 
   /* 
    * Start Header
@@ -638,7 +640,10 @@ DddmpCuddBddArrayStore (
     failure);
 
   if (fileToClose) {
-    fclose (fp);
+    fileToClose = 0;
+    retValue = fclose (fp);
+    Dddmp_CheckAndGotoLabel (retValue==EOF, "Error writing to file.",
+      failure);
   }
 
   DddmpUnnumberBddNodes (ddMgr, f, nRoots);
@@ -651,6 +656,12 @@ DddmpCuddBddArrayStore (
 
   failure:
 
+    if (fileToClose) {
+      fclose (fp);
+    }
+    if (numbered) {
+      DddmpUnnumberBddNodes (ddMgr, f, nRoots);
+    }
     if (ids != NULL) {
       DDDMP_FREE (ids);
     }
-- 
2.43.0


From 53aa07a989cef81dce80c405804f3a2c6c564d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:36 +0000
Subject: [PATCH 083/103] fix: loading diagrams with variables matched by
 auxiliary ids took the ids of the file for those of the manager

---
 lib/cudd-3.0.0/dddmp/dddmpLoad.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/cudd-3.0.0/dddmp/dddmpLoad.c b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
index 40ea608..eef277d 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpLoad.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
@@ -771,13 +771,16 @@ DddmpCuddDdArrayLoad (
         invauxids[i] = -1;
       }
 
-      for (i=0; i<Hdr->nsuppvars; i++) {
-        invauxids[varmatchauxids[Hdr->ids[i]]] = Hdr->ids[i];
+      for (i=0; i<nddvars; i++) {
+        if (varmatchauxids[i]>=0) {
+          invauxids[varmatchauxids[i]] = i;
+        }
       }
 
       /* generate convertids array */
       for (i=0; i<Hdr->nsuppvars; i++) {
-        if ((Hdr->auxids[i]>maxaux) || (invauxids[Hdr->auxids[i]]<0)) {
+        if ((Hdr->auxids[i]<0) || (Hdr->auxids[i]>maxaux) ||
+          (invauxids[Hdr->auxids[i]]<0)) {
           (void) fprintf (stderr,
             "DdLoad Error: auxid %d not found in DD manager.\n", 
             Hdr->auxids[i]);
-- 
2.43.0


From f781e3b08d9220ca9d6daf8a3b618ca0f8372fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:36 +0000
Subject: [PATCH 084/103] fix: loading diagrams with roots matched by names
 ignored the match

---
 lib/cudd-3.0.0/dddmp/dddmpLoad.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/cudd-3.0.0/dddmp/dddmpLoad.c b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
index eef277d..b92bbb3 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpLoad.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
@@ -1144,7 +1144,8 @@ DddmpCuddDdArrayLoad (
     switch (rootMatchMode) {
       case DDDMP_ROOT_MATCHNAMES:
         for (j=0; j<nRoots; j++) {
-          if (strcmp(rootmatchnames[i], Hdr->rootnames[j]) == 0)
+          if (Hdr->rootnames != NULL &&
+            strcmp(rootmatchnames[i], Hdr->rootnames[j]) == 0)
             break;
         }
         if (j>=nRoots) {
@@ -1158,7 +1159,7 @@ DddmpCuddDdArrayLoad (
         break;
     }
 
-    id = Hdr->rootids[i];
+    id = (j<nRoots) ? Hdr->rootids[j] : 0;
     if (id==0) {
       (void) fprintf (stderr, "DdLoad Warning: NULL root found in file\n");
       fflush (stderr);
-- 
2.43.0


From 981180c289fa863fd4cfa3735531b607f1fe9c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:36 +0000
Subject: [PATCH 085/103] fix: loading a binary file released the constant once
 too often

---
 lib/cudd-3.0.0/dddmp/dddmpLoad.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/cudd-3.0.0/dddmp/dddmpLoad.c b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
index b92bbb3..2756289 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpLoad.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
@@ -979,6 +979,7 @@ DddmpCuddDdArrayLoad (
         case DDDMP_TERMINAL:     
           /* only 1 terminal presently supported */    
           pnodes[i] = Cudd_ReadOne (ddMgr);       
+          Cudd_Ref (pnodes[i]);
           continue; 
           break;
         case DDDMP_RELATIVE_1:
-- 
2.43.0


From 649ec37dceba57f3b6af91b3748847d609bedf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:29 +0000
Subject: [PATCH 086/103] fix: loading a diagram with numbers referenced nodes
 after they were given up

---
 lib/cudd-3.0.0/dddmp/dddmpLoad.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/cudd-3.0.0/dddmp/dddmpLoad.c b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
index 2756289..ce7f13a 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpLoad.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
@@ -1112,6 +1112,9 @@ DddmpCuddDdArrayLoad (
         DdNode *tmp = Cudd_addIthVar (ddMgr, var);
         Cudd_Ref (tmp);
         pnodes[i] = Cudd_addIte (ddMgr, tmp, T, E);
+        if (pnodes[i] != NULL) {
+          cuddRef (pnodes[i]);
+        }
         Cudd_RecursiveDeref (ddMgr, tmp);
         break;
         }
@@ -1121,7 +1124,9 @@ DddmpCuddDdArrayLoad (
         break;
      }
 
-    cuddRef (pnodes[i]);
+    if (ddType != DDDMP_ADD) {
+      cuddRef (pnodes[i]);
+    }
   }
 
   /*------------------------ Deal With the File Tail -----------------------*/
-- 
2.43.0


From 30d08b1d40df4ffdf37774e416047eaa82cfcf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:51 +0000
Subject: [PATCH 087/103] fix: loading a dddmp file that ends early crashed or
 lost nodes

---
 lib/cudd-3.0.0/dddmp/dddmpLoad.c | 43 +++++++++++++++++++++++++++++---
 lib/cudd-3.0.0/dddmp/dddmpUtil.c |  2 +-
 2 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/lib/cudd-3.0.0/dddmp/dddmpLoad.c b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
index ce7f13a..9d53e40 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpLoad.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpLoad.c
@@ -399,7 +399,7 @@ Dddmp_cuddHeaderLoad (
   FILE *fp                   /* IN: file pointer */
   )
 {
-  Dddmp_Hdr_t *Hdr;
+  Dddmp_Hdr_t *Hdr = NULL;
   int i, fileToClose;
   int *tmpVarIds = NULL;
   int *tmpVarComposeIds = NULL;
@@ -539,6 +539,10 @@ Dddmp_cuddHeaderLoad (
   return (DDDMP_SUCCESS);
 
   failure:
+    if (fileToClose == 1) {
+      fclose (fp);
+    }
+    DddmpFreeHeader(Hdr);
     return (DDDMP_FAILURE);
 }
 
@@ -659,10 +663,16 @@ DddmpCuddDdArrayLoad (
   Dddmp_CheckAndGotoLabel (Hdr==NULL, "Error reading header.",
     failure);
 
-  Dddmp_CheckAndGotoLabel (Hdr->nnodes==0, "Zero number of nodes.",
+  Dddmp_CheckAndGotoLabel (Hdr->nnodes<=0, "Zero number of nodes.",
     failure);
+  Dddmp_CheckAndGotoLabel (Hdr->ids==NULL || Hdr->permids==NULL ||
+    Hdr->rootids==NULL, "Incomplete header.", failure);
 
   nRoots = Hdr->nRoots;
+  for (i=0; i<nRoots; i++) {
+    Dddmp_CheckAndGotoLabel (Hdr->rootids[i]<-Hdr->nnodes ||
+      Hdr->rootids[i]>Hdr->nnodes, "Unexpected root id.", failure);
+  }
 
   if (Hdr->ddType != ddType) {
     (void) fprintf (stderr, "DdLoad Error: ddType mismatch\n");
@@ -702,7 +712,8 @@ DddmpCuddDdArrayLoad (
       }
     }
   }
-  Dddmp_Assert (k==Hdr->nsuppvars, "k==Hdr->nsuppvars");
+  Dddmp_CheckAndGotoLabel (k!=Hdr->nsuppvars, "Unexpected variable order.",
+    failure);
 
   if (Hdr->suppVarNames != NULL) {
     /*
@@ -858,6 +869,8 @@ DddmpCuddDdArrayLoad (
 
   maxv = (-1);
   for (i=0; i<Hdr->nsuppvars; i++) {
+    Dddmp_CheckAndGotoLabel (convertids[i]<0, "Unexpected variable id.",
+      failure);
     if (convertids[i] > maxv) {
       maxv = convertids[i];
     }
@@ -878,6 +891,9 @@ DddmpCuddDdArrayLoad (
   pnodes = DDDMP_ALLOC(DdNode *,(Hdr->nnodes+1));
   Dddmp_CheckAndGotoLabel (pnodes==NULL, "Error allocating memory.",
     failure);
+  for (i=0; i<=Hdr->nnodes; i++) {
+    pnodes[i] = NULL;
+  }
 
   if (Hdr->nsuppvars < 256) {
     pvars1byte = DDDMP_ALLOC(unsigned char,(Hdr->nnodes+1));
@@ -945,15 +961,17 @@ DddmpCuddDdArrayLoad (
 
           /* StQ 11.02.2004:
              Bug fixed --> Reference All Nodes for ADD */
-          Cudd_Ref (pnodes[i]);       
           Dddmp_CheckAndGotoLabel (pnodes[i]==NULL, "NULL pnodes.",
             failure);
+          Cudd_Ref (pnodes[i]);       
           continue;
         } else {
 #ifdef DDDMP_DEBUG
           Dddmp_Assert (idT>0, "id > 0");
 #endif
           var = atoi(buf);
+          Dddmp_CheckAndGotoLabel (idT<=0 || idT>=i || idE<=-i || idE>=i ||
+            idE==0, "Unexpected node id.", failure);
           T = pnodes[idT];
           if(idE<0) {
             idE = -idE;
@@ -1035,6 +1053,8 @@ DddmpCuddDdArrayLoad (
 #ifdef DDDMP_DEBUG
       Dddmp_Assert (idT<i, "id<i");
 #endif
+      Dddmp_CheckAndGotoLabel (idT<=0 || idT>=i, "Unexpected node id.",
+        failure);
       T = pnodes[idT];
       if (cuddIsConstant(T))
         vT = Hdr->nsuppvars;
@@ -1054,6 +1074,8 @@ DddmpCuddDdArrayLoad (
 #ifdef DDDMP_DEBUG
       Dddmp_Assert (idE<i, "idE < i");
 #endif
+      Dddmp_CheckAndGotoLabel (idE<=0 || idE>=i, "Unexpected node id.",
+        failure);
       E = pnodes[idE];
       if (cuddIsConstant(E))
         vE = Hdr->nsuppvars;
@@ -1093,6 +1115,9 @@ DddmpCuddDdArrayLoad (
       break;
     }
 
+    Dddmp_CheckAndGotoLabel (var<0 || var>=Hdr->nsuppvars,
+      "Unexpected variable.", failure);
+
     if (pvars1byte != NULL) {
       pvars1byte[i] = (unsigned char) var;
     } else {
@@ -1124,6 +1149,7 @@ DddmpCuddDdArrayLoad (
         break;
      }
 
+    Dddmp_CheckAndGotoLabel (pnodes[i]==NULL, "NULL pnodes.", failure);
     if (ddType != DDDMP_ADD) {
       cuddRef (pnodes[i]);
     }
@@ -1139,6 +1165,7 @@ DddmpCuddDdArrayLoad (
   /* Close File IFF Necessary */
   if (fileToClose) {
     fclose (fp);
+    fileToClose = 0;
   }
 
   /* BDD Roots */
@@ -1231,6 +1258,14 @@ failure:
 
   nRoots = 0; /* return 0 on error ! */
 
+  if (pnodes != NULL) {
+    for (i=1; i<=Hdr->nnodes; i++) {
+      if (pnodes[i] != NULL) {
+        Cudd_RecursiveDeref (ddMgr, pnodes[i]);
+      }
+    }
+  }
+
   DDDMP_FREE (proots);
 
   goto load_end; /* this is done to free memory */
diff --git a/lib/cudd-3.0.0/dddmp/dddmpUtil.c b/lib/cudd-3.0.0/dddmp/dddmpUtil.c
index 0967518..69a4d38 100644
--- a/lib/cudd-3.0.0/dddmp/dddmpUtil.c
+++ b/lib/cudd-3.0.0/dddmp/dddmpUtil.c
@@ -385,7 +385,7 @@ DddmpIntArrayRead (
   }
 
   for (i=0; i < n; i++) { 
-    if (fscanf (fp, "%d", &array[i])==EOF) {
+    if (fscanf (fp, "%d", &array[i])!=1) {
       (void) fprintf (stderr,
         "DddmpIntArrayRead: Error reading file - EOF found\n");
       fflush (stderr);
-- 
2.43.0


From 9e7d6b7b7afc2e4a39b94f7c0262c9a81207b793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:42 +0000
Subject: [PATCH 088/103] fix: residues ignored the sign of two's complement
 numbers and failed on reordering

---
 lib/cudd-3.0.0/cudd/cuddAddWalsh.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddAddWalsh.c b/lib/cudd-3.0.0/cudd/cuddAddWalsh.c
index ea7c3db..eeedfea 100644
--- a/lib/cudd-3.0.0/cudd/cuddAddWalsh.c
+++ b/lib/cudd-3.0.0/cudd/cuddAddWalsh.c
@@ -193,13 +193,17 @@ Cudd_addResidue(
 	/* Choose current and previous arrays. */
 	thisOne = k & 1;
 	previous = thisOne ^ 1;
+	/* Adjust residue for MSB, if this is a two's complement number. */
+	if (tc && (k == n - 1)) {
+	    residue = (m - residue) % m;
+	}
 	/* Build an ADD projection function. */
 	if (msbLsb) {
 	    index = top+n-k-1;
 	} else {
 	    index = top+k;
 	}
-	var = cuddUniqueInter(dd,index,DD_ONE(dd),DD_ZERO(dd));
+	var = Cudd_addIthVar(dd,index);
 	if (var == NULL) {
 	    for (j = 0; j < m; j++) {
 		Cudd_RecursiveDeref(dd,array[previous][j]);
@@ -234,10 +238,6 @@ Cudd_addResidue(
 	Cudd_RecursiveDeref(dd,var);
 	/* Update residue of 2**k. */
 	residue = (2 * residue) % m;
-	/* Adjust residue for MSB, if this is a two's complement number. */
-	if (tc && (k == n - 1)) {
-	    residue = (m - residue) % m;
-	}
     }
 
     /* We are only interested in the 0-residue node of the top layer. */
-- 
2.43.0


From 365017d5e15dcee83b4033bbcb452ad504a23f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:42 +0000
Subject: [PATCH 089/103] fix: composition of diagrams with numbers overran the
 substitution vector and went on after a reordering

---
 lib/cudd-3.0.0/cudd/cuddCompose.c | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddCompose.c b/lib/cudd-3.0.0/cudd/cuddCompose.c
index cdcb5a6..03dd7ac 100644
--- a/lib/cudd-3.0.0/cudd/cuddCompose.c
+++ b/lib/cudd-3.0.0/cudd/cuddCompose.c
@@ -656,7 +656,7 @@ Cudd_addNonSimCompose(
 {
     DdNode		*cube, *key, *var, *tmp, *piece;
     DdNode		*res;
-    int			i, lastsub;
+    int			i;
 
     /* The cache entry for this function is composed of three parts:
     ** f itself, the replacement relation, and the cube of the
@@ -717,16 +717,11 @@ Cudd_addNonSimCompose(
 
     /* Now try composition, until no reordering occurs. */
     do {
-	/* Find real substitution with largest index. */
-	for (lastsub = dd->size - 1; lastsub >= 0; lastsub--) {
-	    if (!ddIsIthAddVar(dd,vector[lastsub],(unsigned int)lastsub)) {
-		break;
-	    }
-	}
-
-	/* Recursively solve the problem. */
+	/* Recursively solve the problem.  The variables on top of the
+	** remaining parts of f and of the replacement relation may have any
+	** index; hence, the whole vector is needed. */
 	dd->reordered = 0;
-	res = cuddAddNonSimComposeRecur(dd,f,vector,key,cube,lastsub+1);
+	res = cuddAddNonSimComposeRecur(dd,f,vector,key,cube,dd->size);
 	if (res != NULL) cuddRef(res);
 
     } while (dd->reordered == 1);
@@ -1491,7 +1486,7 @@ cuddAddNonSimComposeRecur(
 	** cache performance is severely affected. Hence we
 	** existentially quantify the variable with index "index" from key.
 	*/
-	var = Cudd_addIthVar(dd, (int) index);
+	var = cuddUniqueInter(dd, (int) index, DD_ONE(dd), DD_ZERO(dd));
 	if (var == NULL) {
 	    return(NULL);
 	}
-- 
2.43.0


From 4e57f759f1afcd060dbf03e3dfe194b1f9ce8174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:42 +0000
Subject: [PATCH 090/103] fix: permuting a diagram with numbers leaked nodes
 when a reordering interrupted it

---
 lib/cudd-3.0.0/cudd/cuddCompose.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddCompose.c b/lib/cudd-3.0.0/cudd/cuddCompose.c
index 03dd7ac..2b43f21 100644
--- a/lib/cudd-3.0.0/cudd/cuddCompose.c
+++ b/lib/cudd-3.0.0/cudd/cuddCompose.c
@@ -1069,7 +1069,11 @@ cuddAddPermuteRecur(
     */
     index = permut[node->index];
     var = cuddUniqueInter(manager,index,DD_ONE(manager),DD_ZERO(manager));
-    if (var == NULL) return(NULL);
+    if (var == NULL) {
+	Cudd_RecursiveDeref(manager, T);
+	Cudd_RecursiveDeref(manager, E);
+	return(NULL);
+    }
     cuddRef(var);
     res = cuddAddIteRecur(manager,var,T,E);
     if (res == NULL) {
-- 
2.43.0


From f65c7e1b6dbf297f520eab69761cc4c90c3f7044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:42 +0000
Subject: [PATCH 091/103] fix: zdd inclusion test cached a value that is no
 node and revived dead nodes

---
 lib/cudd-3.0.0/cudd/cuddZddSetop.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddZddSetop.c b/lib/cudd-3.0.0/cudd/cuddZddSetop.c
index 18172b8..36d71d8 100644
--- a/lib/cudd-3.0.0/cudd/cuddZddSetop.c
+++ b/lib/cudd-3.0.0/cudd/cuddZddSetop.c
@@ -233,8 +233,14 @@ Cudd_zddDiffConst(
 
     /* Check cache.  The cache is shared by cuddZddDiff(). */
     res = cuddCacheLookup2Zdd(table, cuddZddDiff, P, Q);
-    if (res != NULL)
-	return(res);
+    if (res != NULL) {
+	if (res == empty)
+	    return(res);
+	/* The look-up may have reclaimed a dead node. */
+	cuddRef(res);
+	Cudd_RecursiveDerefZdd(table, res);
+	return(DD_NON_CONSTANT);
+    }
 
     if (cuddIsConstant(P))
 	p_top = P->index;
@@ -256,7 +262,10 @@ Cudd_zddDiffConst(
 	    res = Cudd_zddDiffConst(zdd, cuddE(P), cuddE(Q));
     }
 
-    cuddCacheInsert2(table, cuddZddDiff, P, Q, res);
+    /* DD_NON_CONSTANT is not a node that the cache could hand out. */
+    if (res != DD_NON_CONSTANT) {
+	cuddCacheInsert2(table, cuddZddDiff, P, Q, res);
+    }
 
     return(res);
 
-- 
2.43.0


From 2104464aae39ef9591421a160008d6f5fdfce945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:42 +0000
Subject: [PATCH 092/103] fix: zdd cofactors and division lost references to
 intermediate results

---
 lib/cudd-3.0.0/cudd/cuddZddFuncs.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/cudd-3.0.0/cudd/cuddZddFuncs.c b/lib/cudd-3.0.0/cudd/cuddZddFuncs.c
index 5f6d63c..257afa3 100644
--- a/lib/cudd-3.0.0/cudd/cuddZddFuncs.c
+++ b/lib/cudd-3.0.0/cudd/cuddZddFuncs.c
@@ -1166,6 +1166,7 @@ cuddZddDivide(
 	tmp = r;
 	q = cuddZddDivide(dd, f0, g0);
 	if (q == NULL) {
+	    Cudd_RecursiveDerefZdd(dd, tmp);
 	    Cudd_RecursiveDerefZdd(dd, f1);
 	    Cudd_RecursiveDerefZdd(dd, f0);
 	    Cudd_RecursiveDerefZdd(dd, g1);
@@ -1179,6 +1180,7 @@ cuddZddDivide(
 	    Cudd_RecursiveDerefZdd(dd, f0);
 	    Cudd_RecursiveDerefZdd(dd, g1);
 	    Cudd_RecursiveDerefZdd(dd, g0);
+	    Cudd_RecursiveDerefZdd(dd, tmp);
 	    Cudd_RecursiveDerefZdd(dd, q);
 	    return(NULL);
 	}
@@ -1263,6 +1265,7 @@ cuddZddDivideF(
 	tmp = r;
 	q = cuddZddDivideF(dd, f0, g0);
 	if (q == NULL) {
+	    Cudd_RecursiveDerefZdd(dd, tmp);
 	    Cudd_RecursiveDerefZdd(dd, f1);
 	    Cudd_RecursiveDerefZdd(dd, f0);
 	    Cudd_RecursiveDerefZdd(dd, g1);
@@ -1276,6 +1279,7 @@ cuddZddDivideF(
 	    Cudd_RecursiveDerefZdd(dd, f0);
 	    Cudd_RecursiveDerefZdd(dd, g1);
 	    Cudd_RecursiveDerefZdd(dd, g0);
+	    Cudd_RecursiveDerefZdd(dd, tmp);
 	    Cudd_RecursiveDerefZdd(dd, q);
 	    return(NULL);
 	}
@@ -1444,11 +1448,13 @@ cuddZddGetCofactors2(
     *f1 = cuddZddSubset1(dd, f, v);
     if (*f1 == NULL)
 	return(1);
+    Cudd_Ref(*f1);
     *f0 = cuddZddSubset0(dd, f, v);
     if (*f0 == NULL) {
 	Cudd_RecursiveDerefZdd(dd, *f1);
 	return(1);
     }
+    Cudd_Deref(*f1);
     return(0);
 
 } /* end of cuddZddGetCofactors2 */
-- 
2.43.0


From 0253226427c0763f9067a5aa088c98391ca6eeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:42 +0000
Subject: [PATCH 093/103] fix: symmetric sifting of zdd variables did not
 terminate on groups of more than one variable

---
 lib/cudd-3.0.0/cudd/cuddZddSymm.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddZddSymm.c b/lib/cudd-3.0.0/cudd/cuddZddSymm.c
index 3ebdd0e..5a22921 100644
--- a/lib/cudd-3.0.0/cudd/cuddZddSymm.c
+++ b/lib/cudd-3.0.0/cudd/cuddZddSymm.c
@@ -625,8 +625,11 @@ cuddZddSymmSiftingAux(
 	       pass */
             if (move_down != NULL)
 		x = move_down->y;
-	    else
+	    else {
+		while ((unsigned) x < table->subtableZ[x].next)
+		    x = table->subtableZ[x].next;
 		x = table->subtableZ[x].next;
+	    }
 	    i = x;
 	    while ((unsigned) i < table->subtableZ[i].next) {
 		i = table->subtableZ[i].next;
@@ -723,6 +726,8 @@ cuddZddSymmSiftingAux(
 	    x = move_down->y;
 	}
 	else {
+	    while ((unsigned) x < table->subtableZ[x].next)
+		x = table->subtableZ[x].next;
 	    x = table->subtableZ[x].next;
 	}
 	i = x;
@@ -810,6 +815,8 @@ cuddZddSymmSiftingAux(
 		x = move_down->y;
 	    }
 	    else {
+		while ((unsigned) x < table->subtableZ[x].next)
+		    x = table->subtableZ[x].next;
 		x = table->subtableZ[x].next;
 	    }
 	    i = x;
-- 
2.43.0


From d603be9e5a080e919dd9266ab929df9a1aa9c055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:42 +0000
Subject: [PATCH 094/103] fix: minimum Hamming distance reused results of
 searches with a smaller bound

---
 lib/cudd-3.0.0/cudd/cuddPriority.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddPriority.c b/lib/cudd-3.0.0/cudd/cuddPriority.c
index c60bc6a..d2ef353 100644
--- a/lib/cudd-3.0.0/cudd/cuddPriority.c
+++ b/lib/cudd-3.0.0/cudd/cuddPriority.c
@@ -1853,7 +1853,9 @@ cuddMinHammingDistRecur(
 	    dd->dead++;
 	    dd->constants.dead++;
 	}
-	return((int) h);
+	/* A negative entry is a lower bound, found with a smaller bound. */
+	if (h >= 0) return((int) h);
+	if (-h >= upperBound) return(upperBound);
     }
 
     Ft = cuddT(F); Fe = cuddE(F);
@@ -1878,7 +1880,7 @@ cuddMinHammingDistRecur(
     if (F->ref != 1) {
 	ptrint fanout = (ptrint) F->ref;
 	cuddSatDec(fanout);
-	res = cuddUniqueConst(dd, (CUDD_VALUE_TYPE) h);
+	res = cuddUniqueConst(dd, (CUDD_VALUE_TYPE) (h < upperBound ? h : -h));
 	if (!cuddHashTableInsert1(table,f,res,fanout)) {
 	    cuddRef(res); Cudd_RecursiveDeref(dd, res);
 	    return(CUDD_OUT_OF_MEM);
-- 
2.43.0


From 387335aba101cf14b99f440e8311589bcabfc20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:48 +0000
Subject: [PATCH 095/103] fix: minimum of outer sums went on after a reordering
 inside of the recursion

---
 lib/cudd-3.0.0/cudd/cuddMatMult.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddMatMult.c b/lib/cudd-3.0.0/cudd/cuddMatMult.c
index 2229ba8..3efa829 100644
--- a/lib/cudd-3.0.0/cudd/cuddMatMult.c
+++ b/lib/cudd-3.0.0/cudd/cuddMatMult.c
@@ -645,7 +645,7 @@ cuddAddOuterSumRecur(
 		return(M);
 	    }
 	} else {
-	    P = Cudd_addApply(dd,Cudd_addMinimum,R,M);
+	    P = cuddAddApplyRecur(dd,Cudd_addMinimum,R,M);
 	    if (P == NULL) {
 		Cudd_RecursiveDeref(dd,R);
 		return(NULL);
-- 
2.43.0


From 0bd517491998d7af3ce021c168a9bd63e6fe14a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:48 +0000
Subject: [PATCH 096/103] fix: rounding reused results of roundings to another
 number of digits

---
 lib/cudd-3.0.0/cudd/cuddAddNeg.c | 25 ++++++++++++++++---------
 lib/cudd-3.0.0/cudd/cuddInt.h    |  2 +-
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddAddNeg.c b/lib/cudd-3.0.0/cudd/cuddAddNeg.c
index b9692a3..ac4e81e 100644
--- a/lib/cudd-3.0.0/cudd/cuddAddNeg.c
+++ b/lib/cudd-3.0.0/cudd/cuddAddNeg.c
@@ -130,13 +130,19 @@ Cudd_addRoundOff(
   DdNode * f,
   int  N)
 {
-    DdNode *res;
+    DdNode *res, *digits;
     double trunc = pow(10.0,(double)N);
 
+    digits = cuddUniqueConst(dd,(CUDD_VALUE_TYPE) N);
+    if (digits == NULL) return(NULL);
+    cuddRef(digits);
     do {
 	dd->reordered = 0;
-	res = cuddAddRoundOffRecur(dd,f,trunc);
+	res = cuddAddRoundOffRecur(dd,f,trunc,digits);
     } while (dd->reordered == 1);
+    if (res != NULL) cuddRef(res);
+    Cudd_RecursiveDeref(dd,digits);
+    if (res != NULL) cuddDeref(res);
     if (dd->errorCode == CUDD_TIMEOUT_EXPIRED && dd->timeoutHandler) {
         dd->timeoutHandler(dd, dd->tohArg);
     }
@@ -222,12 +228,13 @@ DdNode *
 cuddAddRoundOffRecur(
   DdManager * dd,
   DdNode * f,
-  double  trunc)
+  double  trunc,
+  DdNode * digits)
 {
 
     DdNode *res, *fv, *fvn, *T, *E;
     double n;
-    DD_CTFP1 cacheOp;
+    DD_CTFP cacheOp;
 
     statLine(dd);
     if (cuddIsConstant(f)) {
@@ -235,8 +242,8 @@ cuddAddRoundOffRecur(
 	res = cuddUniqueConst(dd,n);
 	return(res);
     }
-    cacheOp = (DD_CTFP1) Cudd_addRoundOff;
-    res = cuddCacheLookup1(dd,cacheOp,f);
+    cacheOp = (DD_CTFP) Cudd_addRoundOff;
+    res = cuddCacheLookup2(dd,cacheOp,f,digits);
     if (res != NULL) {
 	return(res);
     }
@@ -244,12 +251,12 @@ cuddAddRoundOffRecur(
     /* Recursive Step */
     fv = cuddT(f);
     fvn = cuddE(f);
-    T = cuddAddRoundOffRecur(dd,fv,trunc);
+    T = cuddAddRoundOffRecur(dd,fv,trunc,digits);
     if (T == NULL) {
        return(NULL);
     }
     cuddRef(T);
-    E = cuddAddRoundOffRecur(dd,fvn,trunc);
+    E = cuddAddRoundOffRecur(dd,fvn,trunc,digits);
     if (E == NULL) {
 	Cudd_RecursiveDeref(dd,T);
 	return(NULL);
@@ -265,7 +272,7 @@ cuddAddRoundOffRecur(
     cuddDeref(E);
 
     /* Store result. */
-    cuddCacheInsert1(dd,cacheOp,f,res);
+    cuddCacheInsert2(dd,cacheOp,f,digits,res);
     return(res);
 
 } /* end of cuddAddRoundOffRecur */
diff --git a/lib/cudd-3.0.0/cudd/cuddInt.h b/lib/cudd-3.0.0/cudd/cuddInt.h
index a200b25..5bbc17a 100644
--- a/lib/cudd-3.0.0/cudd/cuddInt.h
+++ b/lib/cudd-3.0.0/cudd/cuddInt.h
@@ -1067,7 +1067,7 @@ extern DdNode * cuddAddScalarInverseRecur(DdManager *dd, DdNode *f, DdNode *epsi
 extern DdNode * cuddAddIteRecur(DdManager *dd, DdNode *f, DdNode *g, DdNode *h);
 extern DdNode * cuddAddCmplRecur(DdManager *dd, DdNode *f);
 extern DdNode * cuddAddNegateRecur(DdManager *dd, DdNode *f);
-extern DdNode * cuddAddRoundOffRecur(DdManager *dd, DdNode *f, double trunc);
+extern DdNode * cuddAddRoundOffRecur(DdManager *dd, DdNode *f, double trunc, DdNode *digits);
 extern DdNode * cuddUnderApprox(DdManager *dd, DdNode *f, int numVars, int threshold, int safe, double quality);
 extern DdNode * cuddRemapUnderApprox(DdManager *dd, DdNode *f, int numVars, int threshold, double quality);
 extern DdNode * cuddBiasedUnderApprox(DdManager *dd, DdNode *f, DdNode *b, int numVars, int threshold, double quality1, double quality0);
-- 
2.43.0


From 24c3d792fe993094a49b83864898ea14ac7efad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:48 +0000
Subject: [PATCH 097/103] fix: matrix products reused results of products over
 other variables

---
 lib/cudd-3.0.0/cudd/cuddInt.h     |  1 +
 lib/cudd-3.0.0/cudd/cuddMatMult.c | 28 ++++++++++++++++++----------
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddInt.h b/lib/cudd-3.0.0/cudd/cuddInt.h
index 5bbc17a..670057d 100644
--- a/lib/cudd-3.0.0/cudd/cuddInt.h
+++ b/lib/cudd-3.0.0/cudd/cuddInt.h
@@ -157,6 +157,7 @@
 #define DD_BDD_MAX_EXP_TAG			0x8a
 #define DD_VARS_SYMM_BEFORE_TAG			0x8e
 #define DD_VARS_SYMM_BETWEEN_TAG		0xa2
+#define DD_ADD_MATRIX_MULTIPLY_TAG		0xa6
 
 /* Generator constants. */
 #define CUDD_GEN_CUBES 0
diff --git a/lib/cudd-3.0.0/cudd/cuddMatMult.c b/lib/cudd-3.0.0/cudd/cuddMatMult.c
index 3efa829..4f93986 100644
--- a/lib/cudd-3.0.0/cudd/cuddMatMult.c
+++ b/lib/cudd-3.0.0/cudd/cuddMatMult.c
@@ -77,7 +77,7 @@
 /* Static function prototypes                                                */
 /*---------------------------------------------------------------------------*/
 
-static DdNode * addMMRecur (DdManager *dd, DdNode *A, DdNode *B, int topP, int *vars);
+static DdNode * addMMRecur (DdManager *dd, DdNode *A, DdNode *B, int topP, int *vars, DdNode *cube);
 static DdNode * addTriangleRecur (DdManager *dd, DdNode *f, DdNode *g, int *vars, DdNode *cube);
 static DdNode * cuddAddOuterSumRecur (DdManager *dd, DdNode *M, DdNode *r, DdNode *c);
 
@@ -115,7 +115,7 @@ Cudd_addMatrixMultiply(
   int  nz)
 {
     int i, nvars, *vars;
-    DdNode *res; 
+    DdNode *res, *cube; 
 
     /* Array vars says what variables are "summation" variables. */
     nvars = dd->size;
@@ -130,11 +130,20 @@ Cudd_addMatrixMultiply(
     for (i = 0; i < nz; i++) {
         vars[z[i]->index] = 1;
     }
+    cube = Cudd_addComputeCube(dd, z, NULL, nz);
+    if (cube == NULL) {
+	FREE(vars);
+	return(NULL);
+    }
+    cuddRef(cube);
 
     do {
 	dd->reordered = 0;
-	res = addMMRecur(dd,A,B,-1,vars);
+	res = addMMRecur(dd,A,B,-1,vars,cube);
     } while (dd->reordered == 1);
+    if (res != NULL) cuddRef(res);
+    Cudd_RecursiveDeref(dd,cube);
+    if (res != NULL) cuddDeref(res);
     FREE(vars);
     if (dd->errorCode == CUDD_TIMEOUT_EXPIRED && dd->timeoutHandler) {
         dd->timeoutHandler(dd, dd->tohArg);
@@ -319,7 +328,8 @@ addMMRecur(
   DdNode * A,
   DdNode * B,
   int  topP,
-  int * vars)
+  int * vars,
+  DdNode * cube)
 {
     DdNode *zero,
            *At,		/* positive cofactor of first operand */
@@ -336,7 +346,6 @@ addMMRecur(
     int index;		/* index of the top variable */
     CUDD_VALUE_TYPE value;
     int topA, topB, topV;
-    DD_CTFP cacheOp;
 
     statLine(dd);
     zero = DD_ZERO(dd);
@@ -377,8 +386,7 @@ addMMRecur(
     topA = cuddI(dd,A->index); topB = cuddI(dd,B->index);
     topV = ddMin(topA,topB);
 
-    cacheOp = (DD_CTFP) addMMRecur;
-    res = cuddCacheLookup2(dd,cacheOp,A,B);
+    res = cuddCacheLookup(dd,DD_ADD_MATRIX_MULTIPLY_TAG,A,B,cube);
     if (res != NULL) {
 	/* If the result is 0, there is no need to normalize.
 	** Otherwise we count the number of z variables between
@@ -434,10 +442,10 @@ addMMRecur(
 	Bt = Be = B;
     }
 
-    t = addMMRecur(dd, At, Bt, (int)topV, vars);
+    t = addMMRecur(dd, At, Bt, (int)topV, vars, cube);
     if (t == NULL) return(NULL);
     cuddRef(t);
-    e = addMMRecur(dd, Ae, Be, (int)topV, vars);
+    e = addMMRecur(dd, Ae, Be, (int)topV, vars, cube);
     if (e == NULL) {
 	Cudd_RecursiveDeref(dd, t);
 	return(NULL);
@@ -474,7 +482,7 @@ addMMRecur(
 	Cudd_RecursiveDeref(dd, e);
     }
 
-    cuddCacheInsert2(dd,cacheOp,A,B,res);
+    cuddCacheInsert(dd,DD_ADD_MATRIX_MULTIPLY_TAG,A,B,cube,res);
 
     /* We have computed (and stored in the computed table) a minimal
     ** result; that is, a result that assumes no summation variables
-- 
2.43.0


From 592405b534e1bf04fd941527aedd6317229ce311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:18 +0000
Subject: [PATCH 098/103] fix: managers in different threads raced on the
 out-of-memory handler

---
 lib/cudd-3.0.0/cudd/cuddCache.c    | 2 +-
 lib/cudd-3.0.0/cudd/cuddInit.c     | 2 +-
 lib/cudd-3.0.0/cudd/cuddLCache.c   | 6 +++---
 lib/cudd-3.0.0/cudd/cuddLevelQ.c   | 2 +-
 lib/cudd-3.0.0/cudd/cuddRef.c      | 2 +-
 lib/cudd-3.0.0/cudd/cuddReorder.c  | 4 ++--
 lib/cudd-3.0.0/cudd/cuddTable.c    | 8 ++++----
 lib/cudd-3.0.0/cudd/cuddZddReord.c | 2 +-
 lib/cudd-3.0.0/util/safe_mem.c     | 2 +-
 lib/cudd-3.0.0/util/util.h         | 9 ++++++++-
 10 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/lib/cudd-3.0.0/cudd/cuddCache.c b/lib/cudd-3.0.0/cudd/cuddCache.c
index 010e486..1a53f31 100644
--- a/lib/cudd-3.0.0/cudd/cuddCache.c
+++ b/lib/cudd-3.0.0/cudd/cuddCache.c
@@ -841,7 +841,7 @@ cuddCacheResize(
     unsigned int slots, oldslots;
     double offset;
     int moved = 0;
-    extern DD_OOMFP MMoutOfMemory;
+    extern UTIL_THREAD_LOCAL DD_OOMFP MMoutOfMemory;
     DD_OOMFP saveHandler;
 #ifndef DD_CACHE_PROFILE
     ptruint misalignment;
diff --git a/lib/cudd-3.0.0/cudd/cuddInit.c b/lib/cudd-3.0.0/cudd/cuddInit.c
index 18f918f..17644f7 100644
--- a/lib/cudd-3.0.0/cudd/cuddInit.c
+++ b/lib/cudd-3.0.0/cudd/cuddInit.c
@@ -111,7 +111,7 @@ Cudd_Init(
     DdNode *one, *zero;
     unsigned int maxCacheSize;
     unsigned int looseUpTo;
-    extern DD_OOMFP MMoutOfMemory;
+    extern UTIL_THREAD_LOCAL DD_OOMFP MMoutOfMemory;
     DD_OOMFP saveHandler;
 
     if (maxMemory == 0) {
diff --git a/lib/cudd-3.0.0/cudd/cuddLCache.c b/lib/cudd-3.0.0/cudd/cuddLCache.c
index b439187..3475363 100644
--- a/lib/cudd-3.0.0/cudd/cuddLCache.c
+++ b/lib/cudd-3.0.0/cudd/cuddLCache.c
@@ -1159,7 +1159,7 @@ cuddLocalCacheResize(
     int i, shift;
     unsigned int posn;
     unsigned int slots, oldslots;
-    extern DD_OOMFP MMoutOfMemory;
+    extern UTIL_THREAD_LOCAL DD_OOMFP MMoutOfMemory;
     DD_OOMFP saveHandler;
 
     olditem = cache->item;
@@ -1318,7 +1318,7 @@ cuddHashTableResize(
     DdHashItem **oldBuckets = hash->bucket;
     int shift;
     int oldNumBuckets = hash->numBuckets;
-    extern DD_OOMFP MMoutOfMemory;
+    extern UTIL_THREAD_LOCAL DD_OOMFP MMoutOfMemory;
     DD_OOMFP saveHandler;
 
     /* Compute the new size of the table. */
@@ -1410,7 +1410,7 @@ cuddHashTableAlloc(
 {
     int i;
     unsigned int itemsize = hash->itemsize;
-    extern DD_OOMFP MMoutOfMemory;
+    extern UTIL_THREAD_LOCAL DD_OOMFP MMoutOfMemory;
     DD_OOMFP saveHandler;
     DdHashItem **mem, *thisOne, *next, *item;
 
diff --git a/lib/cudd-3.0.0/cudd/cuddLevelQ.c b/lib/cudd-3.0.0/cudd/cuddLevelQ.c
index de40c82..65eaf34 100644
--- a/lib/cudd-3.0.0/cudd/cuddLevelQ.c
+++ b/lib/cudd-3.0.0/cudd/cuddLevelQ.c
@@ -513,7 +513,7 @@ hashResize(
     DdQueueItem **oldBuckets = queue->buckets;
     int shift;
     int oldNumBuckets = queue->numBuckets;
-    extern DD_OOMFP MMoutOfMemory;
+    extern UTIL_THREAD_LOCAL DD_OOMFP MMoutOfMemory;
     DD_OOMFP saveHandler;
 
     /* Compute the new size of the subtable. */
diff --git a/lib/cudd-3.0.0/cudd/cuddRef.c b/lib/cudd-3.0.0/cudd/cuddRef.c
index 53dee8e..158b1f7 100644
--- a/lib/cudd-3.0.0/cudd/cuddRef.c
+++ b/lib/cudd-3.0.0/cudd/cuddRef.c
@@ -302,7 +302,7 @@ Cudd_DelayedDerefBdd(
 #if 0
     if (table->nextDead == table->deathRowDepth) {
 	if (table->deathRowDepth < table->looseUpTo / 2) {
-	    extern void (*MMoutOfMemory)(size_t);
+	    extern UTIL_THREAD_LOCAL void (*MMoutOfMemory)(size_t);
 	    void (*saveHandler)(size_t) = MMoutOfMemory;
 	    DdNodePtr *newRow;
 	    MMoutOfMemory = table->outOfMemCallback;
diff --git a/lib/cudd-3.0.0/cudd/cuddReorder.c b/lib/cudd-3.0.0/cudd/cuddReorder.c
index 09e7328..46cfb7c 100644
--- a/lib/cudd-3.0.0/cudd/cuddReorder.c
+++ b/lib/cudd-3.0.0/cudd/cuddReorder.c
@@ -366,7 +366,7 @@ cuddDynamicAllocNode(
     int     i;
     DdNodePtr *mem;
     DdNode *list, *node;
-    extern DD_OOMFP MMoutOfMemory;
+    extern UTIL_THREAD_LOCAL DD_OOMFP MMoutOfMemory;
     DD_OOMFP saveHandler;
 
     if (table->nextFree == NULL) {        /* free list is empty */
@@ -730,7 +730,7 @@ cuddSwapInPlace(
     DdNodePtr *previousP;
     DdNode *tmp;
     DdNode *sentinel = &(table->sentinel);
-    extern DD_OOMFP MMoutOfMemory;
+    extern UTIL_THREAD_LOCAL DD_OOMFP MMoutOfMemory;
     DD_OOMFP saveHandler;
 
 #ifdef DD_DEBUG
diff --git a/lib/cudd-3.0.0/cudd/cuddTable.c b/lib/cudd-3.0.0/cudd/cuddTable.c
index c700840..a0bf845 100644
--- a/lib/cudd-3.0.0/cudd/cuddTable.c
+++ b/lib/cudd-3.0.0/cudd/cuddTable.c
@@ -228,7 +228,7 @@ cuddAllocNode(
     int i;
     DdNodePtr *mem;
     DdNode *list, *node;
-    extern DD_OOMFP MMoutOfMemory;
+    extern UTIL_THREAD_LOCAL DD_OOMFP MMoutOfMemory;
     DD_OOMFP saveHandler;
 
     if (unique->nextFree == NULL) {	/* free list is empty */
@@ -1606,7 +1606,7 @@ cuddRehash(
     DdNode *node, *next;
     DdNode *sentinel = &(unique->sentinel);
     hack split;
-    extern DD_OOMFP MMoutOfMemory;
+    extern UTIL_THREAD_LOCAL DD_OOMFP MMoutOfMemory;
     DD_OOMFP saveHandler;
 
     if (unique->gcFrac == DD_GC_FRAC_HI && unique->slots > unique->looseUpTo) {
@@ -1774,7 +1774,7 @@ cuddShrinkSubtable(
     DdNode *node, *next;
     DdNode *sentinel = &(unique->sentinel);
     unsigned int slots, oldslots;
-    extern DD_OOMFP MMoutOfMemory;
+    extern UTIL_THREAD_LOCAL DD_OOMFP MMoutOfMemory;
     DD_OOMFP saveHandler;
 
     oldnodelist = unique->subtables[i].nodelist;
@@ -2496,7 +2496,7 @@ ddRehashZdd(
     int j, pos;
     DdNodePtr *nodelist, *oldnodelist;
     DdNode *node, *next;
-    extern DD_OOMFP MMoutOfMemory;
+    extern UTIL_THREAD_LOCAL DD_OOMFP MMoutOfMemory;
     DD_OOMFP saveHandler;
 
     if (unique->slots > unique->looseUpTo) {
diff --git a/lib/cudd-3.0.0/cudd/cuddZddReord.c b/lib/cudd-3.0.0/cudd/cuddZddReord.c
index df39875..a67dbe3 100644
--- a/lib/cudd-3.0.0/cudd/cuddZddReord.c
+++ b/lib/cudd-3.0.0/cudd/cuddZddReord.c
@@ -1367,7 +1367,7 @@ zddReorderPostprocess(
     DdNodePtr *nodelist, *oldnodelist;
     DdNode *node, *next;
     unsigned int slots, oldslots;
-    extern DD_OOMFP MMoutOfMemory;
+    extern UTIL_THREAD_LOCAL DD_OOMFP MMoutOfMemory;
     DD_OOMFP saveHandler;
 
 #ifdef DD_VERBOSE
diff --git a/lib/cudd-3.0.0/util/safe_mem.c b/lib/cudd-3.0.0/util/safe_mem.c
index 74aaf94..28c7b48 100644
--- a/lib/cudd-3.0.0/util/safe_mem.c
+++ b/lib/cudd-3.0.0/util/safe_mem.c
@@ -76,7 +76,7 @@ extern "C" {
 /**
  * @brief Global out-of-memory handler.
  */
-void (*MMoutOfMemory)(size_t) = MMout_of_memory;
+UTIL_THREAD_LOCAL void (*MMoutOfMemory)(size_t) = MMout_of_memory;
 
 #ifdef __cplusplus
 }
diff --git a/lib/cudd-3.0.0/util/util.h b/lib/cudd-3.0.0/util/util.h
index ee111ec..249759d 100644
--- a/lib/cudd-3.0.0/util/util.h
+++ b/lib/cudd-3.0.0/util/util.h
@@ -209,7 +209,14 @@ extern void *MMalloc(size_t);
 extern void *MMrealloc(void *, size_t);
 #endif
 extern void MMout_of_memory(size_t);
-extern void (*MMoutOfMemory) (size_t);
+/* The managers of different threads set and reset the handler around their
+ * allocations; hence each thread has its own. */
+#if defined(_MSC_VER)
+#define UTIL_THREAD_LOCAL __declspec(thread)
+#else
+#define UTIL_THREAD_LOCAL __thread
+#endif
+extern UTIL_THREAD_LOCAL void (*MMoutOfMemory) (size_t);
 
 extern long util_cpu_time(void);
 extern long util_cpu_ctime(void);
-- 
2.43.0


From 5dd17ecc82947eee703acdf110e7a9a0099a1a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:30 +0000
Subject: [PATCH 099/103] fix: safety specifications with several blanks
 between tokens could not be translated to circuits

---
 tools/translateSafetySlugsSpecToSyntCompAIGFormat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/translateSafetySlugsSpecToSyntCompAIGFormat.py b/tools/translateSafetySlugsSpecToSyntCompAIGFormat.py
index a467cb7..1c6a1f6 100755
--- a/tools/translateSafetySlugsSpecToSyntCompAIGFormat.py
+++ b/tools/translateSafetySlugsSpecToSyntCompAIGFormat.py
@@ -103,7 +103,7 @@ def produceAIGFileFromSlugsFile(filename):
         elif line.startswith("["):
             currentCategory = line
         elif len(line)>0:
-            categories[currentCategory].append(line)
+            categories[currentCategory].append(" ".join(line.split()))
 
     # Check the absense of liveness conditions.
     if len(categories["[ENV_LIVENESS]"])>0:
-- 
2.43.0


From c22cd5f114c49293e1cd77782f460acf5f418f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:57 +0000
Subject: [PATCH 100/103] fix: RATSY translator split names that start with a
 keyword and joined tokens across lines

---
 .../translateFromRatsyFormatToSlugsFormat.py  | 22 +++++--------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/tools/translateFromRatsyFormatToSlugsFormat.py b/tools/translateFromRatsyFormatToSlugsFormat.py
index d1a2e10..88b7d96 100755
--- a/tools/translateFromRatsyFormatToSlugsFormat.py
+++ b/tools/translateFromRatsyFormatToSlugsFormat.py
@@ -28,23 +28,13 @@ def tokenize(str):
             str = str[1:]
             continue
 
-        if str.startswith("FALSE"):
-            str = str[5:]
-            res.append(("FALSE",))
-            continue
-
-        if str.startswith("TRUE"):
-            str = str[4:]
-            res.append(("TRUE",))
-            continue
-
-        if str.startswith("next"):
-            str = str[4:]
-            res.append(("next",))
-            continue
-
         m = match('[a-zA-Z0-9_.]+', str)
         if m:
+            if m.group(0) in ["FALSE","TRUE","next"]:
+                res.append((m.group(0),))
+                str = str[m.end(0):]
+                continue
+
             # Special case: ["X","F","U","W","0","1"]
             if m.end()==1:
                 if str[0] in ["X","F","G","U","W","0","1"]:
@@ -234,7 +224,7 @@ def performConversion(ltlFile):
             if mode==0:
                 print >>sys.stderr, "Error: Expective setting the section before the first activity."
                 raise
-            stringsOfType[mode] = stringsOfType[mode]+line
+            stringsOfType[mode] = stringsOfType[mode]+" "+line
     ltlFileStream.close()
 
     # Read inputBits
-- 
2.43.0


From 31c8a376913a30619e39762f02aba5b8cab95d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:50 +0000
Subject: [PATCH 101/103] fix: strategy tools failed on strategies without
 variables

---
 tools/explicitImplementationIntegerDecoder.py | 2 +-
 tools/explicitStrategyToGraphviz.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/explicitImplementationIntegerDecoder.py b/tools/explicitImplementationIntegerDecoder.py
index e1bce11..9dae50a 100755
--- a/tools/explicitImplementationIntegerDecoder.py
+++ b/tools/explicitImplementationIntegerDecoder.py
@@ -14,7 +14,7 @@ for line in sys.stdin.readlines():
         
         # Split the components
         stateComponents = part2.split(", ")
-        stateComponents = [a.split(":") for a in stateComponents]
+        stateComponents = [a.split(":") for a in stateComponents if a!=""]
         for a in stateComponents:
             assert len(a)==2
         stateComponents = [(a[0],a[1]) for a in stateComponents]
diff --git a/tools/explicitStrategyToGraphviz.py b/tools/explicitStrategyToGraphviz.py
index 08b9556..ff5cebd 100755
--- a/tools/explicitStrategyToGraphviz.py
+++ b/tools/explicitStrategyToGraphviz.py
@@ -23,7 +23,7 @@ for line in sys.stdin.readlines():
     # Parsing proposition values
     assert linePart2[0]=="<"
     assert linePart2[-1]==">"
-    linePart2 = [a.strip().split(":") for a in linePart2[1:len(linePart2)-1].split(",")]
+    linePart2 = [a.strip().split(":") for a in linePart2[1:len(linePart2)-1].split(",") if a.strip()!=""]
     thesePropositions = [a[0] for a in linePart2]
     theseValues = [a[1] for a in linePart2]
     
-- 
2.43.0


From 54eabcb6b0cdc8dffee6fe0f7a554ac996348a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:17 +0000
Subject: [PATCH 102/103] fix: searches for Pareto fronts did not end when the
 called script failed

---
 tools/multiDimensionalRealizabilitySearch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/multiDimensionalRealizabilitySearch.py b/tools/multiDimensionalRealizabilitySearch.py
index e7b1b51..b4c03ca 100755
--- a/tools/multiDimensionalRealizabilitySearch.py
+++ b/tools/multiDimensionalRealizabilitySearch.py
@@ -169,6 +169,8 @@ def runSearch(scriptName, oldParameterTypes):
             print "No, after %f seconds" % totalTime
         else:
             print >>sys.stderr, "Error: Could not obtain a result from the called script."            
+            print >>sys.stderr, result
+            sys.exit(1)
             
             
 
-- 
2.43.0


From 1c3e3aa0f151b9273ff0cb05def4f667593e66e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:17 +0000
Subject: [PATCH 103/103] fix: cost-optimal strategies could lack transitions
 for action costs of different magnitudes

---
 src/extensionTwoDimensionalCost.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/extensionTwoDimensionalCost.hpp b/src/extensionTwoDimensionalCost.hpp
index dfb36b6..7b72bea 100644
--- a/src/extensionTwoDimensionalCost.hpp
+++ b/src/extensionTwoDimensionalCost.hpp
@@ -502,9 +502,9 @@ public:
 
                     // .... and add the allowed transitions to positions that are already know to be winning ...
                     for (auto it = transitionCosts.begin();it!=transitionCosts.end();it++) {
-                        double allowedActionCost = currentTuple.getActionCost() - it->first;
-                        // Numeric correction
-                        allowedActionCost = std::nextafter(allowedActionCost,std::numeric_limits<double>::max());
+                        // Numeric correction (before subtracting, as the rounding error of the sum of costs can be many times
+                        // the distance between two representable values next to the difference)
+                        double allowedActionCost = std::nextafter(currentTuple.getActionCost(),std::numeric_limits<double>::max()) - it->first;
                         // std::cerr << "Allowed Action Cost: " << allowedActionCost << std::endl;
                         auto winningStateFinder = winningPositionsFound.upper_bound(MK_COST_TUPLE(currentTuple.getWaitingCost(),allowedActionCost));
                         if (winningStateFinder != winningPositionsFound.begin()) {
-- 
2.43.0

