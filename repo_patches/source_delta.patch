From 0b27801aa6462baf102879c3d7ec5c4d6b46fda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:58 +0000
Subject: [PATCH 01/36] fix: read the queue of jobs only with its mutex held

Evaluation threads tested jobsToProcess.empty() without holding the mutex
while other threads pop jobs, which is a data race.
---
 gegelatilib/src/learn/parallelLearningAgent.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/gegelatilib/src/learn/parallelLearningAgent.cpp b/gegelatilib/src/learn/parallelLearningAgent.cpp
index 95a0013..a306b88 100644
--- a/gegelatilib/src/learn/parallelLearningAgent.cpp
+++ b/gegelatilib/src/learn/parallelLearningAgent.cpp
@@ -108,15 +108,14 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
     std::unique_ptr<TPG::TPGExecutionEngine> tee =
         this->tpg->getFactory().createTPGExecutionEngine(privateEnv, NULL);
 
-    int i = 0;
     // Pop a job
-    while (!jobsToProcess.empty()) { // Thread safe access to size
-        i++;
-        bool doProcess = false;
+    bool doProcess;
+    do {
+        doProcess = false;
         std::shared_ptr<Learn::Job> jobToProcess;
         { // Mutuel exclusion zone
             std::lock_guard<std::mutex> lock(rootsToProcessMutex);
-            if (!jobsToProcess.empty()) { // Additional verification after lock
+            if (!jobsToProcess.empty()) {
                 jobToProcess = jobsToProcess.front();
                 jobsToProcess.pop();
                 doProcess = true;
@@ -125,7 +124,6 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
 
         // Processing to do?
         if (doProcess) {
-            doProcess = false;
             // Dedicated archive for the root
             Archive* temporaryArchive = NULL;
             if (mode == LearningMode::TRAINING) {
@@ -154,7 +152,7 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
                 }
             }
         }
-    }
+    } while (doProcess);
 
     // Clean up
     if (!useMainEnvironment) {
-- 
2.43.0


From aa71a8e9eafb1368b7ce92753993b15ba69f3e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:21 +0000
Subject: [PATCH 02/36] fix: clone the environment of evaluation threads before
 starting them

Each thread cloned the main LearningEnvironment by itself, possibly while
the main thread was already running an evaluation on it: a data race, and a
clone in an inconsistent state.
---
 .../include/learn/parallelLearningAgent.h     |  7 +++--
 .../src/learn/parallelLearningAgent.cpp       | 30 +++++++++----------
 2 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/gegelatilib/include/learn/parallelLearningAgent.h b/gegelatilib/include/learn/parallelLearningAgent.h
index 67d5c04..b0d5eb0 100644
--- a/gegelatilib/include/learn/parallelLearningAgent.h
+++ b/gegelatilib/include/learn/parallelLearningAgent.h
@@ -143,8 +143,8 @@ namespace Learn {
          * Mutex protecting the results. \param[in,out] archiveMap Map
          * storing the exhaustiveArchive to be merged. \param[in]
          * archiveMapMutex Mutex protecting the archiveMap.
-         * \param[in] useMainEnvironment Boolean that is true if we use the
-         * declared LearningEnvironment, otherwise the method will clone it.
+         * \param[in] privateLearningEnvironment LearningEnvironment used by
+         * this thread only during the evaluations.
          */
         void slaveEvalJobThread(
             uint64_t generationNumber, LearningMode mode,
@@ -155,7 +155,8 @@ namespace Learn {
                 resultsPerRootMap,
             std::mutex& resultsPerRootMapMutex,
             std::map<uint64_t, Archive*>& archiveMap,
-            std::mutex& archiveMapMutex, bool useMainEnvironment);
+            std::mutex& archiveMapMutex,
+            LearningEnvironment& privateLearningEnvironment);
 
         /**
          * \brief Method to merge several Archive created in parallel
diff --git a/gegelatilib/src/learn/parallelLearningAgent.cpp b/gegelatilib/src/learn/parallelLearningAgent.cpp
index a306b88..49175b8 100644
--- a/gegelatilib/src/learn/parallelLearningAgent.cpp
+++ b/gegelatilib/src/learn/parallelLearningAgent.cpp
@@ -37,6 +37,7 @@
 
 #include <algorithm>
 #include <iterator>
+#include <memory>
 #include <mutex>
 #include <queue>
 #include <thread>
@@ -92,17 +93,11 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
                                  std::shared_ptr<Job>>>& resultsPerRootMap,
     std::mutex& resultsPerRootMapMutex,
     std::map<uint64_t, Archive*>& archiveMap, std::mutex& archiveMapMutex,
-    bool useMainEnvironment)
+    LearningEnvironment& privateLearningEnvironment)
 {
-
-    // Clone learningEnvironment
-    LearningEnvironment* privateLearningEnvironment =
-        useMainEnvironment ? &this->learningEnvironment
-                           : this->learningEnvironment.clone();
-
     // Create a TPGExecutionEngine
     Environment privateEnv(this->env.getInstructionSet(),
-                           privateLearningEnvironment->getDataSources(),
+                           privateLearningEnvironment.getDataSources(),
                            this->env.getNbRegisters(),
                            this->env.getNbConstant());
     std::unique_ptr<TPG::TPGExecutionEngine> tee =
@@ -135,7 +130,7 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
 
             std::shared_ptr<EvaluationResult> avgScore =
                 this->evaluateJob(*tee, *jobToProcess, generationNumber, mode,
-                                  *privateLearningEnvironment);
+                                  privateLearningEnvironment);
 
             { // Store result Mutual exclusion zone
                 std::lock_guard<std::mutex> lock(resultsPerRootMapMutex);
@@ -153,11 +148,6 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
             }
         }
     } while (doProcess);
-
-    // Clean up
-    if (!useMainEnvironment) {
-        delete privateLearningEnvironment;
-    }
 }
 
 void Learn::ParallelLearningAgent::mergeArchiveMap(
@@ -244,6 +234,13 @@ void Learn::ParallelLearningAgent::evaluateAllRootsInParallelExecute(
     std::mutex resultsPerRootMutex;
     std::mutex archiveMapMutex;
 
+    // Clone the environment of each additional thread before any of them
+    // starts, since the evaluations modify the main environment.
+    std::vector<std::unique_ptr<LearningEnvironment>> privateEnvironments;
+    for (auto i = 0; i < (this->maxNbThreads - 1); i++) {
+        privateEnvironments.emplace_back(this->learningEnvironment.clone());
+    }
+
     // Create the threads
     std::vector<std::thread> threads;
     for (auto i = 0; i < (this->maxNbThreads - 1); i++) {
@@ -251,14 +248,15 @@ void Learn::ParallelLearningAgent::evaluateAllRootsInParallelExecute(
             &ParallelLearningAgent::slaveEvalJobThread, this, generationNumber,
             mode, std::ref(jobsToProcess), std::ref(rootsToProcessMutex),
             std::ref(resultsPerJobMap), std::ref(resultsPerRootMutex),
-            std::ref(archiveMap), std::ref(archiveMapMutex), false));
+            std::ref(archiveMap), std::ref(archiveMapMutex),
+            std::ref(*privateEnvironments.at(i))));
     }
 
     // Work in the main thread also, using the main environment
     this->slaveEvalJobThread(generationNumber, mode, jobsToProcess,
                              rootsToProcessMutex, resultsPerJobMap,
                              resultsPerRootMutex, archiveMap, archiveMapMutex,
-                             true);
+                             this->learningEnvironment);
 
     // Join the threads
     for (auto& thread : threads) {
-- 
2.43.0


From 84b8353549998fe85cf9e4b5dea5b2751007e182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:39 +0000
Subject: [PATCH 03/36] fix: make the count of DataHandlers atomic

Evaluation and mutation threads create DataHandlers (registers, constants)
concurrently: incrementing the static count was a data race.
---
 gegelatilib/include/data/dataHandler.h | 3 ++-
 gegelatilib/src/data/dataHandler.cpp   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/gegelatilib/include/data/dataHandler.h b/gegelatilib/include/data/dataHandler.h
index c7b84b1..9ed7f25 100644
--- a/gegelatilib/include/data/dataHandler.h
+++ b/gegelatilib/include/data/dataHandler.h
@@ -38,6 +38,7 @@
 #ifndef DATA_HANDLER_H
 #define DATA_HANDLER_H
 
+#include <atomic>
 #include <functional>
 #include <memory>
 #include <typeinfo>
@@ -57,7 +58,7 @@ namespace Data {
         /**
          * \brief Static count used to initialize the id of each DataHandler.
          */
-        static size_t count;
+        static std::atomic<size_t> count;
 
         /**
          * \brief Identifier of each DataHandler.
diff --git a/gegelatilib/src/data/dataHandler.cpp b/gegelatilib/src/data/dataHandler.cpp
index e03af5c..c5ebd79 100644
--- a/gegelatilib/src/data/dataHandler.cpp
+++ b/gegelatilib/src/data/dataHandler.cpp
@@ -39,7 +39,7 @@
 
 #include "data/dataHandler.h"
 
-size_t Data::DataHandler::count = 0;
+std::atomic<size_t> Data::DataHandler::count{0};
 
 Data::DataHandler::DataHandler()
     : id{count++}, cachedHash(), invalidCachedHash(true){};
-- 
2.43.0


From 6b2901e99183082b03c19eb2a57294708b60dd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:18 +0000
Subject: [PATCH 04/36] fix: give each thread its own cache of address spaces

ArrayWrapper and Array2DWrapper filled a mutable map in the const method
getAddressSpace(). During parallel mutation several threads read the same
archived data (and the same fake data sources), so the map was modified
concurrently.
---
 gegelatilib/include/data/array2DWrapper.h | 40 ++++++++++++++++-------
 gegelatilib/include/data/arrayWrapper.h   | 34 ++++++++++++++-----
 2 files changed, 55 insertions(+), 19 deletions(-)

diff --git a/gegelatilib/include/data/array2DWrapper.h b/gegelatilib/include/data/array2DWrapper.h
index 5139710..d96fbd8 100644
--- a/gegelatilib/include/data/array2DWrapper.h
+++ b/gegelatilib/include/data/array2DWrapper.h
@@ -71,8 +71,8 @@ namespace Data {
          * \brief Caching mechanism for storing addressSpace for different
          * types.
          *
-         * This map stores for each data type the size of the addressSpace for
-         * the Array2DWrapper. The purpose of this cache is to accelerate
+         * This map stores for each data type, height and width the size of
+         * the addressSpace for the Array2DWrapper. The purpose of this cache is to accelerate
          * the numerous access to the addressSpace for different data types, by
          * performing it only once per data type requested by the Instructions,
          * through the ProgramExecutionEngine.
@@ -80,10 +80,12 @@ namespace Data {
          * This map is updated and used by the getAddressSpace method.
          *
          * Like the getAddressSpace method of the 2D array, this map stores all
-         * type dimensions.
+         * type dimensions. Since a DataHandler may be read by several threads
+         * at the same time, each thread has its own map.
          */
-        mutable std::map<std::type_index, std::tuple<size_t, size_t, size_t>>
-            cachedAddressSpace;
+        static std::map<std::tuple<std::type_index, size_t, size_t>,
+                        std::tuple<size_t, size_t, size_t>>&
+        getCachedAddressSpace();
 
       protected:
         /// Number of columns of the 2D array.
@@ -213,13 +215,29 @@ namespace Data {
         return this->getAddressSpace(type, nullptr, nullptr);
     }
 
+    template <typename T>
+    std::map<std::tuple<std::type_index, size_t, size_t>,
+             std::tuple<size_t, size_t, size_t>>&
+    Array2DWrapper<T>::getCachedAddressSpace()
+    {
+        static thread_local std::map<
+            std::tuple<std::type_index, size_t, size_t>,
+            std::tuple<size_t, size_t, size_t>>
+            cache;
+        return cache;
+    }
+
     template <typename T>
     size_t Array2DWrapper<T>::getAddressSpace(const std::type_info& type,
                                               size_t* dim1, size_t* dim2) const
     {
+        auto& cachedAddressSpace = getCachedAddressSpace();
+
         // Has the result been cached
-        auto iter = this->cachedAddressSpace.find(type);
-        if (iter != this->cachedAddressSpace.end()) {
+        const std::tuple<std::type_index, size_t, size_t> cacheKey{
+            type, this->height, this->width};
+        auto iter = cachedAddressSpace.find(cacheKey);
+        if (iter != cachedAddressSpace.end()) {
             if (dim1 != nullptr) {
                 *dim1 = std::get<1>(iter->second);
             }
@@ -232,8 +250,8 @@ namespace Data {
         size_t result = 0;
         // The parent function is not used to avoid performing 2 regex matches.
         if (type == typeid(T)) {
-            this->cachedAddressSpace.emplace(
-                type, std::make_tuple(this->nbElements, 0, 0));
+            cachedAddressSpace.emplace(
+                cacheKey, std::make_tuple(this->nbElements, 0, 0));
             result = this->nbElements;
         }
 
@@ -272,8 +290,8 @@ namespace Data {
                     if (dim2 != nullptr) {
                         *dim2 = typeW;
                     }
-                    this->cachedAddressSpace.emplace(
-                        type, std::make_tuple(result, typeH, typeW));
+                    cachedAddressSpace.emplace(
+                        cacheKey, std::make_tuple(result, typeH, typeW));
                 }
             }
         }
diff --git a/gegelatilib/include/data/arrayWrapper.h b/gegelatilib/include/data/arrayWrapper.h
index ec26b4d..e015417 100644
--- a/gegelatilib/include/data/arrayWrapper.h
+++ b/gegelatilib/include/data/arrayWrapper.h
@@ -77,15 +77,18 @@ namespace Data {
          * \brief Caching mechanism for storing addressSpace for different
          * types.
          *
-         * This map stores for each data type the size of the addressSpace for
-         * the PrimitiveTypeArray. The purpose of this cache is to accelerate
+         * This map stores for each data type and number of elements the size
+         * of the addressSpace for the PrimitiveTypeArray. The purpose of this cache is to accelerate
          * the numerous access to the addressSpace for different data types, by
          * performing it only once per data type requested by the Instructions,
          * through the ProgramExecutionEngine.
          *
-         * This map is updated and used by the getAddressSpace method.
+         * This map is updated and used by the getAddressSpace method. Since
+         * a DataHandler may be read by several threads at the same time, each
+         * thread has its own map.
          */
-        mutable std::map<std::type_index, size_t> cachedAddressSpace;
+        static std::map<std::pair<std::type_index, size_t>, size_t>&
+        getCachedAddressSpace();
 
       protected:
         /**
@@ -270,17 +273,30 @@ namespace Data {
         return result;
     }
 
+    template <class T>
+    std::map<std::pair<std::type_index, size_t>, size_t>& ArrayWrapper<
+        T>::getCachedAddressSpace()
+    {
+        static thread_local std::map<std::pair<std::type_index, size_t>, size_t>
+            cache;
+        return cache;
+    }
+
     template <class T>
     size_t ArrayWrapper<T>::getAddressSpace(const std::type_info& type) const
     {
+        auto& cachedAddressSpace = getCachedAddressSpace();
+
         // Has the addresSpaceSize been cached
-        auto iter = this->cachedAddressSpace.find(type);
-        if (iter != this->cachedAddressSpace.end()) {
+        auto iter = cachedAddressSpace.find({type, this->nbElements});
+        if (iter != cachedAddressSpace.end()) {
             return iter->second;
         }
 
         if (type == typeid(T)) {
-            this->cachedAddressSpace.emplace(type, this->nbElements);
+            cachedAddressSpace.emplace(
+                std::make_pair(std::type_index(type), this->nbElements),
+                this->nbElements);
             return this->nbElements;
         }
 
@@ -295,7 +311,9 @@ namespace Data {
             int size = std::atoi(cm[2].str().c_str());
             if (size <= this->nbElements) {
                 size_t result = this->nbElements - size + 1;
-                this->cachedAddressSpace.emplace(type, result);
+                cachedAddressSpace.emplace(
+                    std::make_pair(std::type_index(type), this->nbElements),
+                    result);
                 return result;
             }
         }
-- 
2.43.0


From 47858cb5f4b26a829b645d98f79c90fb70dc2511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:47 +0000
Subject: [PATCH 05/36] fix: forget results and champions along with the
 vertices they refer to

---
 .../include/learn/adversarialLearningAgent.h  | 23 +++++++++++++++
 gegelatilib/include/learn/learningAgent.h     |  2 +-
 .../src/learn/adversarialLearningAgent.cpp    | 28 +++++++++++++++++++
 gegelatilib/src/learn/learningAgent.cpp       | 16 +++++++++--
 4 files changed, 66 insertions(+), 3 deletions(-)

diff --git a/gegelatilib/include/learn/adversarialLearningAgent.h b/gegelatilib/include/learn/adversarialLearningAgent.h
index 0af9f3a..dc35f56 100644
--- a/gegelatilib/include/learn/adversarialLearningAgent.h
+++ b/gegelatilib/include/learn/adversarialLearningAgent.h
@@ -119,6 +119,12 @@ namespace Learn {
                           const TPG::TPGVertex*>& results,
             std::map<uint64_t, Archive*>& archiveMap) override;
 
+        /**
+         * \brief Removes from the champions the vertices that no longer are in
+         * the TPGGraph of the LearningAgent.
+         */
+        void forgetRemovedChampions();
+
       public:
         /**
          * \brief Constructor for AdversarialLearningAgent.
@@ -199,6 +205,23 @@ namespace Learn {
             uint64_t generationNumber, LearningMode mode,
             LearningEnvironment& le) const override;
 
+        /**
+         * \brief Override of the LearningAgent::decimateWorstRoots function.
+         *
+         * In addition to the base behaviour, the decimated roots are removed
+         * from the champions.
+         */
+        void decimateWorstRoots(
+            std::multimap<std::shared_ptr<EvaluationResult>,
+                          const TPG::TPGVertex*>& results) override;
+
+        /**
+         * \brief Override of the LearningAgent::forgetPreviousResults function.
+         *
+         * In addition to the base behaviour, the champions are forgotten.
+         */
+        void forgetPreviousResults() override;
+
         /**
          * \brief Puts all roots into AdversarialJob to be able to use them in
          * simulation later. The difference with the base learning agent
diff --git a/gegelatilib/include/learn/learningAgent.h b/gegelatilib/include/learn/learningAgent.h
index 6fcadab..072fb7d 100644
--- a/gegelatilib/include/learn/learningAgent.h
+++ b/gegelatilib/include/learn/learningAgent.h
@@ -352,7 +352,7 @@ namespace Learn {
          * been tested. To use for example when there is a scoring policy
          * change.
          */
-        void forgetPreviousResults();
+        virtual void forgetPreviousResults();
 
         /**
          * \brief This method update the best score reached at the last
diff --git a/gegelatilib/src/learn/adversarialLearningAgent.cpp b/gegelatilib/src/learn/adversarialLearningAgent.cpp
index 66c5103..236d592 100644
--- a/gegelatilib/src/learn/adversarialLearningAgent.cpp
+++ b/gegelatilib/src/learn/adversarialLearningAgent.cpp
@@ -34,6 +34,7 @@
  * knowledge of the CeCILL-C license and that you accept its terms.
  */
 
+#include <algorithm>
 #include <fstream>
 #include <memory>
 
@@ -122,6 +123,29 @@ void Learn::AdversarialLearningAgent::evaluateAllRootsInParallelCompileResults(
     this->mergeArchiveMap(archiveMap);
 }
 
+void Learn::AdversarialLearningAgent::forgetRemovedChampions()
+{
+    champions.erase(std::remove_if(champions.begin(), champions.end(),
+                                   [this](const TPG::TPGVertex* champion) {
+                                       return !this->tpg->hasVertex(*champion);
+                                   }),
+                    champions.end());
+}
+
+void Learn::AdversarialLearningAgent::decimateWorstRoots(
+    std::multimap<std::shared_ptr<EvaluationResult>, const TPG::TPGVertex*>&
+        results)
+{
+    ParallelLearningAgent::decimateWorstRoots(results);
+    forgetRemovedChampions();
+}
+
+void Learn::AdversarialLearningAgent::forgetPreviousResults()
+{
+    ParallelLearningAgent::forgetPreviousResults();
+    champions.clear();
+}
+
 std::shared_ptr<Learn::EvaluationResult> Learn::AdversarialLearningAgent::
     evaluateJob(TPG::TPGExecutionEngine& tee, const Job& job,
                 uint64_t generationNumber, Learn::LearningMode mode,
@@ -189,9 +213,13 @@ std::queue<std::shared_ptr<Learn::Job>> Learn::AdversarialLearningAgent::
 
     auto roots = tpgGraph->getRootVertices();
 
+    // Champions may have been removed since the last evaluation
+    forgetRemovedChampions();
+
     // if champions is empty fills it with the first roots come
     if (champions.size() == 0) {
         for (int i = 0;
+             i < roots.size() &&
              i <= (double)roots.size() * (1.0 - params.ratioDeletedRoots);
              i++) {
             champions.emplace_back(roots[i]);
diff --git a/gegelatilib/src/learn/learningAgent.cpp b/gegelatilib/src/learn/learningAgent.cpp
index 2c74dea..893b947 100644
--- a/gegelatilib/src/learn/learningAgent.cpp
+++ b/gegelatilib/src/learn/learningAgent.cpp
@@ -36,6 +36,7 @@
  * knowledge of the CeCILL-C license and that you accept its terms.
  */
 
+#include <algorithm>
 #include <inttypes.h>
 #include <queue>
 
@@ -78,8 +79,8 @@ void Learn::LearningAgent::init(uint64_t seed)
     // Clear the archive
     this->archive.clear();
 
-    // Clear the best root
-    this->bestRoot = {nullptr, nullptr};
+    // Forget everything about the vertices of the previous graph
+    this->forgetPreviousResults();
 }
 
 void Learn::LearningAgent::addLogger(Log::LALogger& logger)
@@ -229,6 +230,17 @@ void Learn::LearningAgent::trainOneGeneration(uint64_t generationNumber)
         logger.get().logNewGeneration(generationNumber);
     }
 
+    // Without root team, populateTPG builds a new graph: nothing is known about
+    // its vertices.
+    auto rootVertices = this->tpg->getRootVertices();
+    if (std::none_of(rootVertices.begin(), rootVertices.end(),
+                     [](const TPG::TPGVertex* root) {
+                         return dynamic_cast<const TPG::TPGTeam*>(root) !=
+                                nullptr;
+                     })) {
+        this->forgetPreviousResults();
+    }
+
     // Populate Sequentially
     Mutator::TPGMutator::populateTPG(*this->tpg, this->archive,
                                      this->params.mutation, this->rng,
-- 
2.43.0


From cd6b8d7b3c410189bec9ec38813b0575dcdb90e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:18 +0000
Subject: [PATCH 06/36] fix: identify archived programs by an id that is never
 reused

Recordings were grouped by address of the program. A program allocated at the
address of a deleted one inherited its recordings, and training then depended
on the memory allocator.
---
 gegelatilib/include/archive.h         | 11 +++++++----
 gegelatilib/include/program/program.h | 19 +++++++++++++++++++
 gegelatilib/src/archive.cpp           |  9 +++++----
 gegelatilib/src/program/program.cpp   |  2 ++
 4 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/gegelatilib/include/archive.h b/gegelatilib/include/archive.h
index 123bc01..2e85714 100644
--- a/gegelatilib/include/archive.h
+++ b/gegelatilib/include/archive.h
@@ -65,6 +65,10 @@ typedef struct ArchiveRecording
     /// Value returned by the Program for the DataHandler with the specified
     /// hash.
     const double result;
+
+    /// Identifier of the Program, distinguishes it from a freed Program that
+    /// had the same address.
+    const uint64_t progId;
 } ArchiveRecording;
 
 /**
@@ -108,8 +112,8 @@ class Archive
         dataHandlers;
 
     /**
-     * \brief Map storing the Program pointers referenced in recordings the
-     * associated recording.
+     * \brief Map storing the identifiers of the Programs referenced in
+     * recordings and the associated recordings.
      *
      * The Map is filled in the addRecording method, and elements are removed
      * whenever the las ArchiveRecording referencing a Program is removed from
@@ -117,8 +121,7 @@ class Archive
      *
      * The Map is used to speed the unicity tests.
      */
-    std::map<const Program::Program*, std::deque<ArchiveRecording>>
-        recordingsPerProgram;
+    std::map<uint64_t, std::deque<ArchiveRecording>> recordingsPerProgram;
 
     /// Recordings of the Archive
     std::deque<ArchiveRecording> recordings;
diff --git a/gegelatilib/include/program/program.h b/gegelatilib/include/program/program.h
index ae4b77c..977f740 100644
--- a/gegelatilib/include/program/program.h
+++ b/gegelatilib/include/program/program.h
@@ -38,6 +38,8 @@
 #define PROGRAM_H
 
 #include <algorithm>
+#include <atomic>
+#include <cstdint>
 #include <vector>
 
 #include "data/constantHandler.h"
@@ -76,6 +78,17 @@ namespace Program {
          **/
         Data::ConstantHandler constants;
 
+        /**
+         * \brief Identifier of the Program.
+         *
+         * Contrary to the address of a Program, its identifier is never used
+         * again for another Program after the Program was deleted.
+         */
+        const uint64_t id{nextId++};
+
+        /// Identifier of the next created Program.
+        static std::atomic<uint64_t> nextId;
+
         /// Delete the default constructor.
         Program() = delete;
 
@@ -114,6 +127,12 @@ namespace Program {
                 });
         };
 
+        /// Get the identifier of the Program
+        uint64_t getId() const
+        {
+            return this->id;
+        }
+
         /**
          * Disable Program default assignment operator.
          *
diff --git a/gegelatilib/src/archive.cpp b/gegelatilib/src/archive.cpp
index 03448ee..1af7bb2 100644
--- a/gegelatilib/src/archive.cpp
+++ b/gegelatilib/src/archive.cpp
@@ -96,16 +96,17 @@ void Archive::addRecording(
         }
 
         // Create and stores the recording
-        ArchiveRecording recording{program, hash, result};
+        ArchiveRecording recording{program, hash, result, program->getId()};
         this->recordings.push_back(recording);
 
         // Update the recordings per Program
-        auto iterNbRecordings = this->recordingsPerProgram.find(program);
+        auto iterNbRecordings =
+            this->recordingsPerProgram.find(recording.progId);
         if (iterNbRecordings != this->recordingsPerProgram.end()) {
             iterNbRecordings->second.push_back(recording);
         }
         else {
-            this->recordingsPerProgram.insert({program, {recording}});
+            this->recordingsPerProgram.insert({recording.progId, {recording}});
         }
 
         // Check if Archive max size was reached (or exceeded)
@@ -138,7 +139,7 @@ void Archive::addRecording(
 
             // Update the recordingsPerProgram of the corresponding Program,
             // and remove it if it was the last.
-            auto iter = this->recordingsPerProgram.find(rec.prog);
+            auto iter = this->recordingsPerProgram.find(rec.progId);
             iter->second.pop_front();
             if (iter->second.size() == 0) {
                 this->recordingsPerProgram.erase(iter);
diff --git a/gegelatilib/src/program/program.cpp b/gegelatilib/src/program/program.cpp
index f098b29..8d5e409 100644
--- a/gegelatilib/src/program/program.cpp
+++ b/gegelatilib/src/program/program.cpp
@@ -44,6 +44,8 @@
 
 #include "program/program.h"
 
+std::atomic<uint64_t> Program::Program::nextId{0};
+
 Program::Program::~Program()
 {
     while (!lines.empty()) {
-- 
2.43.0


From 8f3b2802a1a88930a7139890560486bf6c35acb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:50 +0000
Subject: [PATCH 07/36] fix: let the order of data handlers count in the
 combined hash of the archive

Exchanging the contents of two handlers, or two handlers with equal contents,
gave the hash of other data: recordings then referred to the wrong copy.
---
 gegelatilib/src/archive.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gegelatilib/src/archive.cpp b/gegelatilib/src/archive.cpp
index 1af7bb2..b5296fe 100644
--- a/gegelatilib/src/archive.cpp
+++ b/gegelatilib/src/archive.cpp
@@ -54,7 +54,10 @@ size_t Archive::getCombinedHash(
     size_t hash = 0;
     for (const std::reference_wrapper<const Data::DataHandler> dHandler :
          dHandlers) {
-        hash ^= dHandler.get().getHash();
+        // Rotate the hash so that the position of each DataHandler matters:
+        // exchanging the content of two handlers must change the result.
+        hash = ((hash << 7) | (hash >> (sizeof(size_t) * 8 - 7))) ^
+               dHandler.get().getHash();
     }
     return hash;
 }
-- 
2.43.0


From 0ca29f85afeefa19335f1945f908d729a0e4a4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:50 +0000
Subject: [PATCH 08/36] fix: combine classification scores of classes that were
 never met

Two results without any evaluation for a class gave 0/0 for this class, hence a
NaN score for the root.
---
 gegelatilib/src/learn/classificationEvaluationResult.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gegelatilib/src/learn/classificationEvaluationResult.cpp b/gegelatilib/src/learn/classificationEvaluationResult.cpp
index 6228d59..b4c9e06 100644
--- a/gegelatilib/src/learn/classificationEvaluationResult.cpp
+++ b/gegelatilib/src/learn/classificationEvaluationResult.cpp
@@ -65,6 +65,13 @@ Learn::EvaluationResult& Learn::ClassificationEvaluationResult::operator+=(
         }
 
         for (auto idx = 0; idx < this->scorePerClass.size(); idx++) {
+            // A class met by none of the evaluations keeps its null score.
+            if (this->nbEvaluationPerClass.at(idx) +
+                    otherEval.nbEvaluationPerClass.at(idx) ==
+                0) {
+                continue;
+            }
+
             // Weighted sum of scores.
             this->scorePerClass.at(idx) =
                 this->scorePerClass.at(idx) *
-- 
2.43.0


From dce9798cb027209518778c45d7c59a7f9b762a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:17 +0000
Subject: [PATCH 09/36] fix: keep only the best policy and survive the removal
 of every root

keepBestPolicy() left other vertices when the best root had become internal, kept
the results of the removed roots and dereferenced a null best root. A generation
without survivor read the last element of an empty map.
---
 .../include/learn/adversarialLearningAgent.h  |  8 +++++++
 gegelatilib/include/learn/learningAgent.h     |  2 +-
 .../src/learn/adversarialLearningAgent.cpp    |  6 +++++
 gegelatilib/src/learn/learningAgent.cpp       | 22 ++++++++++++++++---
 gegelatilib/src/log/laPolicyStatsLogger.cpp   |  4 ++++
 5 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/gegelatilib/include/learn/adversarialLearningAgent.h b/gegelatilib/include/learn/adversarialLearningAgent.h
index dc35f56..b01b0ac 100644
--- a/gegelatilib/include/learn/adversarialLearningAgent.h
+++ b/gegelatilib/include/learn/adversarialLearningAgent.h
@@ -215,6 +215,14 @@ namespace Learn {
             std::multimap<std::shared_ptr<EvaluationResult>,
                           const TPG::TPGVertex*>& results) override;
 
+        /**
+         * \brief Override of the LearningAgent::keepBestPolicy function.
+         *
+         * In addition to the base behaviour, the removed roots are removed from
+         * the champions.
+         */
+        void keepBestPolicy() override;
+
         /**
          * \brief Override of the LearningAgent::forgetPreviousResults function.
          *
diff --git a/gegelatilib/include/learn/learningAgent.h b/gegelatilib/include/learn/learningAgent.h
index 072fb7d..e68780c 100644
--- a/gegelatilib/include/learn/learningAgent.h
+++ b/gegelatilib/include/learn/learningAgent.h
@@ -389,7 +389,7 @@ namespace Learn {
          * If the TPGVertex referenced in the bestRoot attribute is no longer
          * a TPGVertex of the TPGGraph, nothing happens.
          */
-        void keepBestPolicy();
+        virtual void keepBestPolicy();
 
         /**
          * \brief Takes a given TPGVertex and creates a job containing it.
diff --git a/gegelatilib/src/learn/adversarialLearningAgent.cpp b/gegelatilib/src/learn/adversarialLearningAgent.cpp
index 236d592..c56a7b8 100644
--- a/gegelatilib/src/learn/adversarialLearningAgent.cpp
+++ b/gegelatilib/src/learn/adversarialLearningAgent.cpp
@@ -140,6 +140,12 @@ void Learn::AdversarialLearningAgent::decimateWorstRoots(
     forgetRemovedChampions();
 }
 
+void Learn::AdversarialLearningAgent::keepBestPolicy()
+{
+    ParallelLearningAgent::keepBestPolicy();
+    forgetRemovedChampions();
+}
+
 void Learn::AdversarialLearningAgent::forgetPreviousResults()
 {
     ParallelLearningAgent::forgetPreviousResults();
diff --git a/gegelatilib/src/learn/learningAgent.cpp b/gegelatilib/src/learn/learningAgent.cpp
index 893b947..19bcd71 100644
--- a/gegelatilib/src/learn/learningAgent.cpp
+++ b/gegelatilib/src/learn/learningAgent.cpp
@@ -389,6 +389,15 @@ void Learn::LearningAgent::updateEvaluationRecords(
     }
 
     { // Update bestRoot
+        if (results.empty()) {
+            // No root survived
+            if (this->bestRoot.first != nullptr &&
+                !this->tpg->hasVertex(*this->bestRoot.first)) {
+                this->bestRoot = {nullptr, nullptr};
+            }
+            return;
+        }
+
         auto iterator = --results.end();
         const std::shared_ptr<EvaluationResult> evaluation = iterator->first;
         const TPG::TPGVertex* candidate = iterator->second;
@@ -430,18 +439,25 @@ double Learn::LearningAgent::getBestScoreLastGen() const
 void Learn::LearningAgent::keepBestPolicy()
 {
     // Evaluate all roots
-    if (this->tpg->hasVertex(*this->bestRoot.first)) {
+    if (this->bestRoot.first != nullptr &&
+        this->tpg->hasVertex(*this->bestRoot.first)) {
         auto bestRootVertex = this->bestRoot.first;
 
         // Remove all but the best root from the tpg
-        while (this->tpg->getNbRootVertices() != 1) {
+        // (The best root may itself be pointed by other roots.)
+        bool removed;
+        do {
+            removed = false;
             auto roots = this->tpg->getRootVertices();
             for (auto root : roots) {
                 if (root != bestRootVertex) {
                     tpg->removeVertex(*root);
+                    // Removed stored result (if any)
+                    this->resultsPerRoot.erase(root);
+                    removed = true;
                 }
             }
-        }
+        } while (removed);
     }
 }
 
diff --git a/gegelatilib/src/log/laPolicyStatsLogger.cpp b/gegelatilib/src/log/laPolicyStatsLogger.cpp
index d10032e..7b4af2e 100644
--- a/gegelatilib/src/log/laPolicyStatsLogger.cpp
+++ b/gegelatilib/src/log/laPolicyStatsLogger.cpp
@@ -47,6 +47,10 @@ void Log::LAPolicyStatsLogger::logAfterDecimate()
     if (this->learningAgent.getBestRoot().first != this->lastBestRoot) {
         // Update the best root befor loggin it PolicyStats
         this->lastBestRoot = this->learningAgent.getBestRoot().first;
+        if (this->lastBestRoot == nullptr) {
+            // No root survived
+            return;
+        }
         *this << "Generation " << this->generationNumber << " - Score "
               << this->learningAgent.getBestRoot().second->getResult()
               << std::endl
-- 
2.43.0


From 9c90197dbabc1b9b076e44399c1b20b14b935b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:45 +0000
Subject: [PATCH 10/36] fix: leave the graph intact when an action is refused
 as source of an edge

setEdgeSource() unregistered the edge from its source before the action refused
it: the edge then belonged to the graph and to no source.
---
 gegelatilib/src/tpg/tpgGraph.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/gegelatilib/src/tpg/tpgGraph.cpp b/gegelatilib/src/tpg/tpgGraph.cpp
index 75a6451..95e8ec6 100644
--- a/gegelatilib/src/tpg/tpgGraph.cpp
+++ b/gegelatilib/src/tpg/tpgGraph.cpp
@@ -292,9 +292,17 @@ bool TPG::TPGGraph::setEdgeSource(const TPGEdge& edge, const TPGVertex& newSrc)
         // finding the vertex should not fail. Otherwise, the exception for
         // next line would be well deserved since it means an edge in the
         // graph is connected to a vertex not in the graph.
-        (*iterOldSrc)->removeOutgoingEdge(iterEdge->get());
-        // Register the edge to the new source
-        (*iterNewSrc)->addOutgoingEdge(iterEdge->get());
+        if (iterOldSrc != iterNewSrc) {
+            // Register the edge to the new source first, as a TPGAction
+            // refuses it.
+            (*iterNewSrc)->addOutgoingEdge(iterEdge->get());
+            (*iterOldSrc)->removeOutgoingEdge(iterEdge->get());
+        }
+        else {
+            // The edge becomes the last one of its source.
+            (*iterOldSrc)->removeOutgoingEdge(iterEdge->get());
+            (*iterNewSrc)->addOutgoingEdge(iterEdge->get());
+        }
         // Set the destination
         iterEdge->get()->setSource(*(iterNewSrc));
         return true;
-- 
2.43.0


From 9efd8dc75c2e82a7b47cd6c31a95afb9ed4e0cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:33 +0000
Subject: [PATCH 11/36] fix: give the iteration and generation to every
 learning environment

The classification and adversarial agents reset the environment without them.
---
 gegelatilib/include/learn/classificationLearningAgent.h | 2 +-
 gegelatilib/src/learn/adversarialLearningAgent.cpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gegelatilib/include/learn/classificationLearningAgent.h b/gegelatilib/include/learn/classificationLearningAgent.h
index 978d11b..5204f88 100644
--- a/gegelatilib/include/learn/classificationLearningAgent.h
+++ b/gegelatilib/include/learn/classificationLearningAgent.h
@@ -172,7 +172,7 @@ namespace Learn {
             uint64_t hash = hasher(generationNumber) ^ hasher(i);
 
             // Reset the learning Environment
-            le.reset(hash, mode);
+            le.reset(hash, mode, i, generationNumber);
 
             uint64_t nbActions = 0;
             while (!le.isTerminal() &&
diff --git a/gegelatilib/src/learn/adversarialLearningAgent.cpp b/gegelatilib/src/learn/adversarialLearningAgent.cpp
index c56a7b8..49cc886 100644
--- a/gegelatilib/src/learn/adversarialLearningAgent.cpp
+++ b/gegelatilib/src/learn/adversarialLearningAgent.cpp
@@ -170,7 +170,7 @@ std::shared_ptr<Learn::EvaluationResult> Learn::AdversarialLearningAgent::
         uint64_t hash = hasher(generationNumber) ^ hasher(i);
 
         // Reset the learning Environment
-        ale.reset(hash, mode);
+        ale.reset(hash, mode, i, generationNumber);
 
         uint64_t nbActions = 0;
 
-- 
2.43.0


From 36be58403b26166a090874c0e705bb897f8fcd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:14 +0000
Subject: [PATCH 12/36] fix: count the inferences of roots that are actions

---
 gegelatilib/src/tpg/instrumented/executionStats.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gegelatilib/src/tpg/instrumented/executionStats.cpp b/gegelatilib/src/tpg/instrumented/executionStats.cpp
index cd8b744..26d0ae1 100644
--- a/gegelatilib/src/tpg/instrumented/executionStats.cpp
+++ b/gegelatilib/src/tpg/instrumented/executionStats.cpp
@@ -65,10 +65,11 @@ void TPG::ExecutionStats::analyzeInstrumentedGraph(const TPGGraph* graph)
     uint64_t nbInferences = std::accumulate(
         roots.cbegin(), roots.cend(), (uint64_t)0,
         [](uint64_t accu, const TPGVertex* vertex) {
-            const auto& rootTeam =
-                dynamic_cast<const TPGTeamInstrumented&>(*vertex);
-            // Raise std::bad_cast if not an instrumented team
-            return accu + rootTeam.getNbVisits();
+            // A root may be a team or an action.
+            const auto& root =
+                dynamic_cast<const TPGVertexInstrumentation&>(*vertex);
+            // Raise std::bad_cast if not an instrumented vertex
+            return accu + root.getNbVisits();
         });
 
     uint64_t nbEvaluatedTeams = 0;
-- 
2.43.0


From 852c2073b3c6cece2a63b467c2cf9518ef35517a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:05 +0000
Subject: [PATCH 13/36] fix: report one verdict per cycle detection

---
 gegelatilib/src/log/cycleDetectionLALogger.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gegelatilib/src/log/cycleDetectionLALogger.cpp b/gegelatilib/src/log/cycleDetectionLALogger.cpp
index 9f20e80..33317c6 100644
--- a/gegelatilib/src/log/cycleDetectionLALogger.cpp
+++ b/gegelatilib/src/log/cycleDetectionLALogger.cpp
@@ -112,6 +112,7 @@ void Log::CycleDetectionLALogger::logAfterPopulateTPG()
         // This happens when a connected sub-graph has no root, which indicates
         // that the subgraph has a cycle.
         *this << "A cycle was detected in the TPG.";
+        return;
     }
 
     // If this point of the algorithm is reached, no cycle were detected
-- 
2.43.0


From 895916e612015578fcacbafd12005e004d64b4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:05 +0000
Subject: [PATCH 14/36] fix: measure the logged durations with a monotonic
 clock

---
 gegelatilib/include/log/laLogger.h |  8 ++++----
 gegelatilib/src/log/laLogger.cpp   | 10 +++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/gegelatilib/include/log/laLogger.h b/gegelatilib/include/log/laLogger.h
index a737e1e..71922d1 100644
--- a/gegelatilib/include/log/laLogger.h
+++ b/gegelatilib/include/log/laLogger.h
@@ -68,13 +68,13 @@ namespace Log {
          * durations from the beginning of the learning.
          */
         std::shared_ptr<std::chrono::time_point<
-            std::chrono::system_clock, std::chrono::nanoseconds>> const start;
+            std::chrono::steady_clock, std::chrono::nanoseconds>> const start;
 
         /**
          * Keeps a given time to be able to show durations from that moment,
          * e.g. to know the duration of the eval.
          */
-        std::shared_ptr<std::chrono::time_point<std::chrono::system_clock,
+        std::shared_ptr<std::chrono::time_point<std::chrono::steady_clock,
                                                 std::chrono::nanoseconds>>
             checkpoint;
 
@@ -106,7 +106,7 @@ namespace Log {
          * \return The duration from begin to now in seconds.
          */
         double getDurationFrom(
-            const std::chrono::time_point<std::chrono::system_clock,
+            const std::chrono::time_point<std::chrono::steady_clock,
                                           std::chrono::nanoseconds>& begin)
             const;
 
@@ -115,7 +115,7 @@ namespace Log {
          *
          * \return The current time value.
          */
-        std::chrono::time_point<std::chrono::system_clock,
+        std::chrono::time_point<std::chrono::steady_clock,
                                 std::chrono::nanoseconds>
         getTime() const;
 
diff --git a/gegelatilib/src/log/laLogger.cpp b/gegelatilib/src/log/laLogger.cpp
index f8b9e5a..0558f07 100644
--- a/gegelatilib/src/log/laLogger.cpp
+++ b/gegelatilib/src/log/laLogger.cpp
@@ -38,21 +38,21 @@
 #include "learn/learningAgent.h"
 
 double Log::LALogger::getDurationFrom(
-    const std::chrono::time_point<std::chrono::system_clock,
+    const std::chrono::time_point<std::chrono::steady_clock,
                                   std::chrono::nanoseconds>& begin) const
 {
     return ((std::chrono::duration<double>)(getTime() - begin)).count();
 }
 
-std::chrono::time_point<std::chrono::system_clock, std::chrono::nanoseconds>
+std::chrono::time_point<std::chrono::steady_clock, std::chrono::nanoseconds>
 Log::LALogger::getTime() const
 {
-    return std::chrono::system_clock::now();
+    return std::chrono::steady_clock::now();
 }
 
 Log::LALogger::LALogger(Learn::LearningAgent& la, std::ostream& out)
     : Log::Logger(out), learningAgent(la),
-      start(std::make_shared<std::chrono::time_point<std::chrono::system_clock,
+      start(std::make_shared<std::chrono::time_point<std::chrono::steady_clock,
                                                      std::chrono::nanoseconds>>(
           getTime()))
 {
@@ -63,5 +63,5 @@ Log::LALogger::LALogger(Learn::LearningAgent& la, std::ostream& out)
 void Log::LALogger::chronoFromNow()
 {
     checkpoint = std::make_shared<std::chrono::time_point<
-        std::chrono::system_clock, std::chrono::nanoseconds>>(getTime());
+        std::chrono::steady_clock, std::chrono::nanoseconds>>(getTime());
 }
-- 
2.43.0


From ad4e09586bd0a460b7e9ff2d2df9259b28fbd79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:41 +0000
Subject: [PATCH 15/36] fix: log the statistics of the first best policy of a
 new graph

---
 gegelatilib/include/log/laPolicyStatsLogger.h | 4 +---
 gegelatilib/src/log/laPolicyStatsLogger.cpp   | 9 +++++++++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/gegelatilib/include/log/laPolicyStatsLogger.h b/gegelatilib/include/log/laPolicyStatsLogger.h
index 863efa7..c7932bc 100644
--- a/gegelatilib/include/log/laPolicyStatsLogger.h
+++ b/gegelatilib/include/log/laPolicyStatsLogger.h
@@ -84,9 +84,7 @@ namespace Log {
         };
 
         /// Inherited from LALogger
-        void logAfterPopulateTPG() override{
-            // nothing to log
-        };
+        void logAfterPopulateTPG() override;
 
         /// Inherited from LALogger
         void logAfterDecimate() override;
diff --git a/gegelatilib/src/log/laPolicyStatsLogger.cpp b/gegelatilib/src/log/laPolicyStatsLogger.cpp
index 7b4af2e..0aed881 100644
--- a/gegelatilib/src/log/laPolicyStatsLogger.cpp
+++ b/gegelatilib/src/log/laPolicyStatsLogger.cpp
@@ -42,6 +42,15 @@ void Log::LAPolicyStatsLogger::logNewGeneration(uint64_t& generationNumber)
     this->generationNumber = generationNumber;
 }
 
+void Log::LAPolicyStatsLogger::logAfterPopulateTPG()
+{
+    // Without best root, the last one belongs to a graph that no longer exists.
+    // A new TPGVertex may be allocated at its address.
+    if (this->learningAgent.getBestRoot().first == nullptr) {
+        this->lastBestRoot = nullptr;
+    }
+}
+
 void Log::LAPolicyStatsLogger::logAfterDecimate()
 {
     if (this->learningAgent.getBestRoot().first != this->lastBestRoot) {
-- 
2.43.0


From 622ef8ef57a7c3b8cc1545a4ef41217cbcd189bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:59 +0000
Subject: [PATCH 16/36] fix: report the exports of graphs that could not be
 written

---
 .../include/file/tpgGraphDotExporter.h        | 26 +++++++++++++++++--
 gegelatilib/src/file/tpgGraphDotExporter.cpp  | 24 +++++++++++++++--
 2 files changed, 46 insertions(+), 4 deletions(-)

diff --git a/gegelatilib/include/file/tpgGraphDotExporter.h b/gegelatilib/include/file/tpgGraphDotExporter.h
index 1c1d61c..3e7fde1 100644
--- a/gegelatilib/include/file/tpgGraphDotExporter.h
+++ b/gegelatilib/include/file/tpgGraphDotExporter.h
@@ -140,6 +140,21 @@ namespace File {
          */
         void printTPGGraphFooter();
 
+        /**
+         * \brief Check that a file is opened by the exporter.
+         *
+         * \throws std::runtime_error if there is none, because the last call to
+         * setNewFilePath failed.
+         */
+        void checkFile() const;
+
+        /**
+         * \brief Flush the file and check that everything was written.
+         *
+         * \throws std::runtime_error if any write in the file failed.
+         */
+        void flushFile();
+
       public:
         /**
          * \brief Constructor for the exporter.
@@ -199,8 +214,10 @@ namespace File {
          */
         void setNewFilePath(const char* newFilePath)
         {
-            //  Close previous file
-            fclose(pFile);
+            //  Close previous file (if any)
+            if (pFile != NULL) {
+                fclose(pFile);
+            }
 
             // open new one;
             if ((pFile = fopen(newFilePath, "w")) == NULL) {
@@ -213,6 +230,9 @@ namespace File {
         /**
          * \brief Print the TPGGraph given when constructing the
          * TPGGraphDotExporter into a dot file.
+         *
+         * \throws std::runtime_error in case the graph could not be completely
+         * written.
          */
         void print();
 
@@ -228,6 +248,8 @@ namespace File {
          *
          * \param[in] root The vertex used as a starting point to print a
          * connected TPG.
+         * \throws std::runtime_error in case the graph could not be completely
+         * written.
          */
         void printSubGraph(const TPG::TPGVertex* root);
     };
diff --git a/gegelatilib/src/file/tpgGraphDotExporter.cpp b/gegelatilib/src/file/tpgGraphDotExporter.cpp
index 5018c95..5c4cec4 100644
--- a/gegelatilib/src/file/tpgGraphDotExporter.cpp
+++ b/gegelatilib/src/file/tpgGraphDotExporter.cpp
@@ -156,6 +156,22 @@ void File::TPGGraphDotExporter::printTPGGraphHeader()
     this->offset = "\t\t";
 }
 
+void File::TPGGraphDotExporter::checkFile() const
+{
+    if (pFile == NULL) {
+        throw std::runtime_error("No file is opened by the exporter.");
+    }
+}
+
+void File::TPGGraphDotExporter::flushFile()
+{
+    // A previous write may have failed, even if this flush does not.
+    if (fflush(pFile) != 0 || ferror(pFile) != 0) {
+        throw std::runtime_error(
+            "The graph could not be completely written in the file.");
+    }
+}
+
 void File::TPGGraphDotExporter::printTPGGraphFooter()
 {
     // Print root actions (and keep the ids)
@@ -187,6 +203,8 @@ void File::TPGGraphDotExporter::printTPGGraphFooter()
 
 void File::TPGGraphDotExporter::print()
 {
+    this->checkFile();
+
     // Print the graph header
     this->printTPGGraphHeader();
 
@@ -215,11 +233,13 @@ void File::TPGGraphDotExporter::print()
     this->printTPGGraphFooter();
 
     // flush file
-    fflush(pFile);
+    this->flushFile();
 }
 
 void File::TPGGraphDotExporter::printSubGraph(const TPG::TPGVertex* root)
 {
+    this->checkFile();
+
     // Print the graph header
     this->printTPGGraphHeader();
 
@@ -278,5 +298,5 @@ void File::TPGGraphDotExporter::printSubGraph(const TPG::TPGVertex* root)
     fprintf(pFile, "%s}\n", this->offset.c_str());
 
     // flush file
-    fflush(pFile);
+    this->flushFile();
 }
-- 
2.43.0


From e7c230a2c466512d86e020cbf20d672c4f988d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:59 +0000
Subject: [PATCH 17/36] fix: export the subgraph of a root that is an action

---
 gegelatilib/src/file/tpgGraphDotExporter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gegelatilib/src/file/tpgGraphDotExporter.cpp b/gegelatilib/src/file/tpgGraphDotExporter.cpp
index 5c4cec4..d148c00 100644
--- a/gegelatilib/src/file/tpgGraphDotExporter.cpp
+++ b/gegelatilib/src/file/tpgGraphDotExporter.cpp
@@ -286,6 +286,10 @@ void File::TPGGraphDotExporter::printSubGraph(const TPG::TPGVertex* root)
                 }
             }
         }
+        else {
+            // Only the given root may be an action here.
+            this->printTPGAction(*(const TPG::TPGAction*)vertex);
+        }
     }
 
     // Print edges
-- 
2.43.0


From 0dafab3e3309f40782c28dd1aa29cc055b997c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:57 +0000
Subject: [PATCH 18/36] fix: refuse graph files whose end is missing

---
 gegelatilib/src/file/tpgGraphDotImporter.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gegelatilib/src/file/tpgGraphDotImporter.cpp b/gegelatilib/src/file/tpgGraphDotImporter.cpp
index 3f9eaf3..3ce14b8 100644
--- a/gegelatilib/src/file/tpgGraphDotImporter.cpp
+++ b/gegelatilib/src/file/tpgGraphDotImporter.cpp
@@ -332,6 +332,16 @@ void File::TPGGraphDotImporter::importGraph()
     while (read) {
         read = this->readLineFromFile();
     }
+
+    // The last line read must be the one following the description of the
+    // graph. Otherwise, the content of the file is not complete.
+    const std::string::size_type first = this->lastLine.find_first_not_of(" \t");
+    if (first == std::string::npos ||
+        (this->lastLine.compare(first, 7, "{ rank=") != 0 &&
+         this->lastLine[first] != '}')) {
+        throw std::ifstream::failure("Unexpected line in the given file: " +
+                                     this->lastLine);
+    }
 }
 
 bool File::TPGGraphDotImporter::readLineFromFile()
-- 
2.43.0


From 42466f1821af34b3f62e41d2e02563faaee54a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:23 +0000
Subject: [PATCH 19/36] fix: import graphs whose programs do not fit in 4096
 characters

---
 .../include/file/tpgGraphDotImporter.h        | 13 +++++----
 gegelatilib/src/file/tpgGraphDotImporter.cpp  | 28 ++++++++++---------
 2 files changed, 22 insertions(+), 19 deletions(-)

diff --git a/gegelatilib/include/file/tpgGraphDotImporter.h b/gegelatilib/include/file/tpgGraphDotImporter.h
index d57bcce..76906c2 100644
--- a/gegelatilib/include/file/tpgGraphDotImporter.h
+++ b/gegelatilib/include/file/tpgGraphDotImporter.h
@@ -170,7 +170,7 @@ namespace File {
         /**
          * \brief contains the regex to identify an instruction declaration
          *
-         * this regex values "I([0-9]+)\\x20\\x5B.*label=\"(.*)\"\\x5D"
+         * this regex values "I([0-9]+)\\x20\\x5B.*?label=\""
          *
          * Explanation :
          *
@@ -178,13 +178,14 @@ namespace File {
          * stored in a group
          * \\x20\\x5B    looks for a succession of a whitespace and an opening
          * bracket ('[')
-         * .*			the following can be any sequence of character
+         * .*?			the following can be any sequence of character
          * label=\"	    looks for the label declaration sequence.
-         * (.*)\"\\x5D	stores the content of the label in a group and  look for
-         * the ending sequence : "]
+         *
+         * The content of the label, which ends with the sequence : "], is not
+         * part of the regex because its length is not limited.
          *
          * Example:
-         * I0 [shape=box style=invis]			Should pass
+         * I0 [shape=box style=invis label=""]	Should pass
          * P0 [fillcolor="#22cccc" shape=point]	Should not pass
          */
         static const std::string instructionRegex;
@@ -403,7 +404,7 @@ namespace File {
          * \brief Maximum number of characters that can be read in a single
          * line.
          */
-        static const unsigned int MAX_READ_SIZE = 4096;
+        static const unsigned int MAX_READ_SIZE = 1 << 20;
 
         /**
          * Destructor for the importer.
diff --git a/gegelatilib/src/file/tpgGraphDotImporter.cpp b/gegelatilib/src/file/tpgGraphDotImporter.cpp
index 3ce14b8..c5998a9 100644
--- a/gegelatilib/src/file/tpgGraphDotImporter.cpp
+++ b/gegelatilib/src/file/tpgGraphDotImporter.cpp
@@ -42,7 +42,7 @@ const std::string File::TPGGraphDotImporter::teamRegex(
 const std::string File::TPGGraphDotImporter::programRegex(
     "P([0-9]+)\\x20\\x5B.*\\x5D");
 const std::string File::TPGGraphDotImporter::instructionRegex(
-    "I([0-9]+)\\x20\\x5B.*label=\"(.*)\"\\x5D");
+    "I([0-9]+)\\x20\\x5B.*?label=\"");
 const std::string File::TPGGraphDotImporter::actionRegex(
     "A([0-9]+)\\x20\\x5B.*=\"([0-9]+)\"\\x5D");
 const std::string File::TPGGraphDotImporter::linkProgramInstructionRegex(
@@ -88,7 +88,14 @@ void File::TPGGraphDotImporter::readLine(std::smatch& matches)
     // inst_idx|dest_idx&op1_param1|op1_param2#...#opN_param1|opN_param2
     if (!this->lastLine.empty() && !matches.empty()) {
         uint64_t prog_label = std::stoi(matches[1]);
-        std::string label = matches[2];
+        // The label may be too long to be captured by a regex.
+        std::string label = matches.suffix();
+        const std::string::size_type labelEnd = label.rfind("\"]");
+        if (labelEnd == std::string::npos) {
+            throw std::ifstream::failure("Incomplete program in the given "
+                                         "file.");
+        }
+        label.resize(labelEnd);
 
         auto p_it = programID.find(prog_label);
         if (p_it != programID.end() && !label.empty()) {
@@ -185,18 +192,17 @@ void File::TPGGraphDotImporter::readProgram(std::smatch& matches)
 
 void File::TPGGraphDotImporter::dumpTPGGraphHeader()
 {
-
-    char buffer[MAX_READ_SIZE];
+    std::string buffer;
 
     // skips the comment lines of header (if any)
     do {
-        pFile.getline(buffer, MAX_READ_SIZE);
-    } while (buffer[0] == '/');
+        std::getline(pFile, buffer);
+    } while (pFile && !buffer.empty() && buffer[0] == '/');
 
     // Skip the header (should be 3 lines, including one covered by previous
     // while loop)
     for (int i = 0; i < 2; i++) {
-        pFile.getline(buffer, MAX_READ_SIZE);
+        std::getline(pFile, buffer);
     }
 }
 
@@ -346,8 +352,6 @@ void File::TPGGraphDotImporter::importGraph()
 
 bool File::TPGGraphDotImporter::readLineFromFile()
 {
-    char buffer[MAX_READ_SIZE];
-
     std::regex testActionDeclare(this->actionRegex);
     std::regex testTeamDeclare(this->teamRegex);
     std::regex testProgramDeclare(this->programRegex);
@@ -359,11 +363,9 @@ bool File::TPGGraphDotImporter::readLineFromFile()
 
     std::smatch matches;
 
-    if (!pFile.getline(buffer, MAX_READ_SIZE))
+    if (!std::getline(pFile, this->lastLine) ||
+        this->lastLine.size() >= MAX_READ_SIZE)
         throw std::ifstream::failure("Couldn't read in the given file");
-    else {
-        this->lastLine = buffer;
-    }
 
     // check the line shape and parse it
     if (std::regex_search(this->lastLine, matches, testTeamDeclare)) {
-- 
2.43.0


From 6c072d0e60329721f49adb037492b33ea6e87648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:31 +0000
Subject: [PATCH 20/36] fix: load the sizes beyond 32 bits that parameter files
 hold

---
 gegelatilib/src/file/parametersParser.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/gegelatilib/src/file/parametersParser.cpp b/gegelatilib/src/file/parametersParser.cpp
index 7ed970a..3434352 100644
--- a/gegelatilib/src/file/parametersParser.cpp
+++ b/gegelatilib/src/file/parametersParser.cpp
@@ -102,19 +102,19 @@ void File::ParametersParser::setParameterFromString(
     Json::Value const& value)
 {
     if (param == "nbActions") {
-        params.mutation.tpg.nbActions = (size_t)value.asUInt();
+        params.mutation.tpg.nbActions = (size_t)value.asUInt64();
         return;
     }
     if (param == "nbRoots") {
-        params.mutation.tpg.nbRoots = (size_t)value.asUInt();
+        params.mutation.tpg.nbRoots = (size_t)value.asUInt64();
         return;
     }
     if (param == "maxInitOutgoingEdges") {
-        params.mutation.tpg.maxInitOutgoingEdges = (size_t)value.asUInt();
+        params.mutation.tpg.maxInitOutgoingEdges = (size_t)value.asUInt64();
         return;
     }
     if (param == "maxOutgoingEdges") {
-        params.mutation.tpg.maxOutgoingEdges = (size_t)value.asUInt();
+        params.mutation.tpg.maxOutgoingEdges = (size_t)value.asUInt64();
         return;
     }
     if (param == "pEdgeDeletion") {
@@ -143,7 +143,7 @@ void File::ParametersParser::setParameterFromString(
         return;
     }
     if (param == "maxProgramSize") {
-        params.mutation.prog.maxProgramSize = (size_t)value.asUInt();
+        params.mutation.prog.maxProgramSize = (size_t)value.asUInt64();
         return;
     }
     if (param == "pDelete") {
@@ -163,7 +163,7 @@ void File::ParametersParser::setParameterFromString(
         return;
     }
     if (param == "nbProgramConstant") {
-        params.nbProgramConstant = (size_t)value.asUInt();
+        params.nbProgramConstant = (size_t)value.asUInt64();
         return;
     }
     if (param == "pConstantMutation") {
@@ -179,7 +179,7 @@ void File::ParametersParser::setParameterFromString(
         return;
     }
     if (param == "archiveSize") {
-        params.archiveSize = (size_t)value.asUInt();
+        params.archiveSize = (size_t)value.asUInt64();
         return;
     }
     if (param == "archivingProbability") {
@@ -207,15 +207,15 @@ void File::ParametersParser::setParameterFromString(
         return;
     }
     if (param == "maxNbEvaluationPerPolicy") {
-        params.maxNbEvaluationPerPolicy = (size_t)value.asUInt();
+        params.maxNbEvaluationPerPolicy = (size_t)value.asUInt64();
         return;
     }
     if (param == "nbRegisters") {
-        params.nbRegisters = (size_t)value.asUInt();
+        params.nbRegisters = (size_t)value.asUInt64();
         return;
     }
     if (param == "nbThreads") {
-        params.nbThreads = (size_t)value.asUInt();
+        params.nbThreads = (size_t)value.asUInt64();
         return;
     }
     if (param == "doValidation") {
-- 
2.43.0


From d3a815195f8d951acb90e4c4519a33e310f44d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:31 +0000
Subject: [PATCH 21/36] fix: ignore ill-formed parameter files entirely

---
 gegelatilib/src/file/parametersParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gegelatilib/src/file/parametersParser.cpp b/gegelatilib/src/file/parametersParser.cpp
index 3434352..e29d80b 100644
--- a/gegelatilib/src/file/parametersParser.cpp
+++ b/gegelatilib/src/file/parametersParser.cpp
@@ -58,6 +58,8 @@ void File::ParametersParser::readConfigFile(const char* path, Json::Value& root)
     if (!parseFromStream(builder, ifs, &root, &errs)) {
         std::cout << errs << std::endl;
         std::cerr << "Ignoring ill-formed config file " << path << std::endl;
+        // Forget what was parsed before the error.
+        root = Json::Value();
     }
 }
 
-- 
2.43.0


From 1d2a90d110a59b31eabb382e217d7af5d838c48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:31 +0000
Subject: [PATCH 22/36] fix: leave parameters unchanged when a value of the
 file is refused

---
 gegelatilib/src/file/parametersParser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gegelatilib/src/file/parametersParser.cpp b/gegelatilib/src/file/parametersParser.cpp
index e29d80b..7ce0d50 100644
--- a/gegelatilib/src/file/parametersParser.cpp
+++ b/gegelatilib/src/file/parametersParser.cpp
@@ -234,7 +234,11 @@ void File::ParametersParser::loadParametersFromJson(
     Json::Value root;
     readConfigFile(path, root);
 
-    setAllParamsFrom(root, params);
+    // Set the parameters in a copy, to leave them all unchanged if one of the
+    // values of the file is not valid.
+    Learn::LearningParameters newParams = params;
+    setAllParamsFrom(root, newParams);
+    params = newParams;
 }
 
 void File::ParametersParser::writeParametersToJson(
-- 
2.43.0


From e5322908c327d8f794bdfefb3e84f026baa22858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:31 +0000
Subject: [PATCH 23/36] fix: report the failures of writing parameter files

---
 gegelatilib/src/file/parametersParser.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gegelatilib/src/file/parametersParser.cpp b/gegelatilib/src/file/parametersParser.cpp
index 7ce0d50..8729d59 100644
--- a/gegelatilib/src/file/parametersParser.cpp
+++ b/gegelatilib/src/file/parametersParser.cpp
@@ -38,6 +38,7 @@
 #include <fstream>
 #include <iostream>
 #include <json.h>
+#include <stdexcept>
 
 #include "file/parametersParser.h"
 
@@ -399,6 +400,9 @@ void File::ParametersParser::writeParametersToJson(
 
     // Write to the output stream
     std::ofstream writtenFile(path);
+    if (!writtenFile.is_open()) {
+        throw std::runtime_error("Could not open file " + std::string(path));
+    }
     Json::StreamWriterBuilder writerFactory;
     // Set a precision to 6 digits after the point.
     writerFactory.settings_["precision"] = 6U;
@@ -406,4 +410,7 @@ void File::ParametersParser::writeParametersToJson(
     writer->write(root, &writtenFile);
     delete writer;
     writtenFile.close();
+    if (!writtenFile) {
+        throw std::runtime_error("Could not write file " + std::string(path));
+    }
 }
-- 
2.43.0


From d6a24992f04130e85bdf01503da24b3119518d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:09 +0000
Subject: [PATCH 24/36] fix: generate code for operands whose type has several
 words

---
 gegelatilib/include/instructions/instruction.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gegelatilib/include/instructions/instruction.h b/gegelatilib/include/instructions/instruction.h
index 7f5a061..9bc4557 100644
--- a/gegelatilib/include/instructions/instruction.h
+++ b/gegelatilib/include/instructions/instruction.h
@@ -142,7 +142,8 @@ namespace Instructions {
          * match 0 to infinite dimensions that have static size.
          **/
         inline static const std::string GET_PRINT_PRIMITIVE_OPERAND_TYPE{
-            "(const )?((struct )?[\\w:\\*]*)[ ]?(\\[(\\d)+\\])*"};
+            "(const )?((struct )?[\\w:\\*]+( [\\w:\\*]+)*)[ ]?"
+            "(\\[(\\d)+\\])*"};
 
 #endif // CODE_GENERATION
 
-- 
2.43.0


From 926c6f1d0c15779cff04ff71e035ed58d4fd5c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:09 +0000
Subject: [PATCH 25/36] fix: generate the right addresses for rows of 2D data
 that is not square

---
 gegelatilib/src/data/dataHandlerPrinter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gegelatilib/src/data/dataHandlerPrinter.cpp b/gegelatilib/src/data/dataHandlerPrinter.cpp
index 53022f7..20a4b53 100644
--- a/gegelatilib/src/data/dataHandlerPrinter.cpp
+++ b/gegelatilib/src/data/dataHandlerPrinter.cpp
@@ -74,7 +74,7 @@ std::string Data::DataHandlerPrinter::printDataAt(
             }
             else {
 
-                size_t width = dataSizes.at(0);
+                size_t width = dataSizes.at(1);
                 size_t arrayWidth = opDimension.at(0);
 
                 size_t addressH = address / (width - arrayWidth + 1);
-- 
2.43.0


From 090113724ba1966f400e6360ea9102af453513c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:09 +0000
Subject: [PATCH 26/36] fix: generate stack mode code whose root is an action

---
 gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp b/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp
index 40604f8..65ff8a3 100644
--- a/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp
+++ b/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp
@@ -122,7 +122,7 @@ void CodeGen::TPGStackGenerationEngine::generateAction(
 void CodeGen::TPGStackGenerationEngine::setRoot(const TPG::TPGVertex& team)
 {
     fileMainH << "\nextern void* (*root)(int* action);" << std::endl;
-    fileMain << "void* (*root)(int* action) = T" << findVertexID(team) << ";"
+    fileMain << "void* (*root)(int* action) = " << vertexName(team) << ";"
              << std::endl;
 }
 
-- 
2.43.0


From 12bf547340a1c2f2fecde721440e03efc987165f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:30 +0000
Subject: [PATCH 27/36] fix: report the failures of writing generated code

---
 gegelatilib/include/codeGen/programGenerationEngine.h |  8 ++++++++
 gegelatilib/include/codeGen/tpgGenerationEngine.h     |  8 ++++++++
 gegelatilib/src/codeGen/programGenerationEngine.cpp   | 11 +++++++++++
 gegelatilib/src/codeGen/tpgGenerationEngine.cpp       | 11 +++++++++++
 gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp  |  1 +
 gegelatilib/src/codeGen/tpgSwitchGenerationEngine.cpp |  1 +
 6 files changed, 40 insertions(+)

diff --git a/gegelatilib/include/codeGen/programGenerationEngine.h b/gegelatilib/include/codeGen/programGenerationEngine.h
index 3ad15e1..5bf44ec 100644
--- a/gegelatilib/include/codeGen/programGenerationEngine.h
+++ b/gegelatilib/include/codeGen/programGenerationEngine.h
@@ -192,6 +192,14 @@ namespace CodeGen {
         void generateProgram(uint64_t progID,
                              const bool ignoreException = false);
 
+        /**
+         * \brief Check that everything generated so far was written in the
+         * files.
+         *
+         * \throws std::runtime_error if writing one of the files failed.
+         */
+        void checkFiles();
+
       protected:
         /**
          * \brief Set global variables in the file holding the programs.
diff --git a/gegelatilib/include/codeGen/tpgGenerationEngine.h b/gegelatilib/include/codeGen/tpgGenerationEngine.h
index 9cceebc..0064259 100644
--- a/gegelatilib/include/codeGen/tpgGenerationEngine.h
+++ b/gegelatilib/include/codeGen/tpgGenerationEngine.h
@@ -140,6 +140,14 @@ namespace CodeGen {
         virtual void generateTPGGraph() = 0;
 
       protected:
+        /**
+         * \brief Check that everything generated so far was written in the
+         * files.
+         *
+         * \throws std::runtime_error if writing one of the files failed.
+         */
+        void checkFiles();
+
         /**
          * \brief Method for generating the code for an edge of the graph.
          *
diff --git a/gegelatilib/src/codeGen/programGenerationEngine.cpp b/gegelatilib/src/codeGen/programGenerationEngine.cpp
index bd8660c..ce98a77 100644
--- a/gegelatilib/src/codeGen/programGenerationEngine.cpp
+++ b/gegelatilib/src/codeGen/programGenerationEngine.cpp
@@ -100,6 +100,17 @@ void CodeGen::ProgramGenerationEngine::generateProgram(
     fileC << "#endif" << std::endl;
 #endif
     fileC << "\treturn reg[0];\n}" << std::endl;
+    checkFiles();
+}
+
+void CodeGen::ProgramGenerationEngine::checkFiles()
+{
+    fileC.flush();
+    fileH.flush();
+    if (!fileC || !fileH) {
+        throw std::runtime_error(
+            "Error while writing the files of the generated programs.");
+    }
 }
 
 std::string CodeGen::ProgramGenerationEngine::completeFormat(
diff --git a/gegelatilib/src/codeGen/tpgGenerationEngine.cpp b/gegelatilib/src/codeGen/tpgGenerationEngine.cpp
index aca3dab..d90fefd 100644
--- a/gegelatilib/src/codeGen/tpgGenerationEngine.cpp
+++ b/gegelatilib/src/codeGen/tpgGenerationEngine.cpp
@@ -84,4 +84,15 @@ CodeGen::TPGGenerationEngine::~TPGGenerationEngine()
     fileMainH.close();
 }
 
+void CodeGen::TPGGenerationEngine::checkFiles()
+{
+    progGenerationEngine.checkFiles();
+    fileMain.flush();
+    fileMainH.flush();
+    if (!fileMain || !fileMainH) {
+        throw std::runtime_error(
+            "Error while writing the files of the generated TPG.");
+    }
+}
+
 #endif // CODE_GENERATION
diff --git a/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp b/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp
index 65ff8a3..a7947f0 100644
--- a/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp
+++ b/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp
@@ -143,6 +143,7 @@ void CodeGen::TPGStackGenerationEngine::generateTPGGraph()
         }
     }
     setRoot(*tpg.getRootVertices().at(0));
+    checkFiles();
 }
 
 void CodeGen::TPGStackGenerationEngine::initTpgFile()
diff --git a/gegelatilib/src/codeGen/tpgSwitchGenerationEngine.cpp b/gegelatilib/src/codeGen/tpgSwitchGenerationEngine.cpp
index e957817..019ca3c 100644
--- a/gegelatilib/src/codeGen/tpgSwitchGenerationEngine.cpp
+++ b/gegelatilib/src/codeGen/tpgSwitchGenerationEngine.cpp
@@ -134,6 +134,7 @@ void CodeGen::TPGSwitchGenerationEngine::generateTPGGraph()
     fileMain << "\t\t}" << std::endl;
     fileMain << "\t}" << std::endl;
     fileMain << "}" << std::endl;
+    checkFiles();
 }
 
 void CodeGen::TPGSwitchGenerationEngine::initTpgFile()
-- 
2.43.0


From 10e5214792679b1dd31ceeaa7a56235085210f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:34 +0000
Subject: [PATCH 28/36] fix: report the types that a data handler does not
 support when scaling a location

---
 gegelatilib/src/data/dataHandler.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gegelatilib/src/data/dataHandler.cpp b/gegelatilib/src/data/dataHandler.cpp
index c5ebd79..efbf145 100644
--- a/gegelatilib/src/data/dataHandler.cpp
+++ b/gegelatilib/src/data/dataHandler.cpp
@@ -36,8 +36,10 @@
  */
 
 #include <algorithm>
+#include <stdexcept>
 
 #include "data/dataHandler.h"
+#include "data/demangle.h"
 
 std::atomic<size_t> Data::DataHandler::count{0};
 
@@ -61,5 +63,11 @@ size_t Data::DataHandler::getHash() const
 uint64_t Data::DataHandler::scaleLocation(const uint64_t rawLocation,
                                           const std::type_info& type) const
 {
-    return rawLocation % this->getAddressSpace(type);
+    const size_t addressSpace = this->getAddressSpace(type);
+    if (addressSpace == 0) {
+        throw std::domain_error(std::string("Data type ") +
+                                DEMANGLE_TYPEID_NAME(type.name()) +
+                                " is not supported by the DataHandler.");
+    }
+    return rawLocation % addressSpace;
 }
-- 
2.43.0


From 594f112333447dcf66a24601d73bdf7fab4b5a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:56 +0000
Subject: [PATCH 29/36] fix: refuse to read a 2D wrapper that points to no data

---
 gegelatilib/include/data/array2DWrapper.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gegelatilib/include/data/array2DWrapper.h b/gegelatilib/include/data/array2DWrapper.h
index d96fbd8..72626fd 100644
--- a/gegelatilib/include/data/array2DWrapper.h
+++ b/gegelatilib/include/data/array2DWrapper.h
@@ -303,6 +303,9 @@ namespace Data {
     UntypedSharedPtr Array2DWrapper<T>::getDataAt(const std::type_info& type,
                                                   const size_t address) const
     {
+        if (this->containerPtr == nullptr) {
+            throw std::runtime_error("Null pointer access.");
+        }
 #ifndef NDEBUG
         // Throw exception in case of invalid arguments.
         ArrayWrapper<T>::checkAddressAndType(type, address);
-- 
2.43.0


From eb24628ae9b0e05bcab19a17a7e003a16580c990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:56 +0000
Subject: [PATCH 30/36] fix: update the hash of an array when another one is
 assigned to it

---
 gegelatilib/include/data/primitiveTypeArray.h   | 3 +++
 gegelatilib/include/data/primitiveTypeArray2D.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/gegelatilib/include/data/primitiveTypeArray.h b/gegelatilib/include/data/primitiveTypeArray.h
index 5fab7d4..bd001d4 100644
--- a/gegelatilib/include/data/primitiveTypeArray.h
+++ b/gegelatilib/include/data/primitiveTypeArray.h
@@ -228,6 +228,9 @@ namespace Data {
             for (auto i = 0; i < this->nbElements; i++) {
                 this->data.at(i) = other.data.at(i);
             }
+
+            // Invalidate the cached hash
+            this->invalidCachedHash = true;
         }
         return *this;
     }
diff --git a/gegelatilib/include/data/primitiveTypeArray2D.h b/gegelatilib/include/data/primitiveTypeArray2D.h
index d22f9d7..0e1b6a8 100644
--- a/gegelatilib/include/data/primitiveTypeArray2D.h
+++ b/gegelatilib/include/data/primitiveTypeArray2D.h
@@ -230,6 +230,9 @@ namespace Data {
             for (auto i = 0; i < this->nbElements; i++) {
                 this->data.at(i) = other.data.at(i);
             }
+
+            // Invalidate the cached hash
+            this->invalidCachedHash = true;
         }
         return *this;
     }
-- 
2.43.0


From 3750de972b1dce2ae2f56e9264ace1e4b81d655a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:56 +0000
Subject: [PATCH 31/36] fix: hash all elements of data with more than 64
 elements

---
 gegelatilib/include/data/arrayWrapper.h   | 8 ++++----
 gegelatilib/include/data/pointerWrapper.h | 8 +++-----
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/gegelatilib/include/data/arrayWrapper.h b/gegelatilib/include/data/arrayWrapper.h
index e015417..37646ea 100644
--- a/gegelatilib/include/data/arrayWrapper.h
+++ b/gegelatilib/include/data/arrayWrapper.h
@@ -436,10 +436,10 @@ namespace Data {
         Data::Hash<T> hasher;
 
         for (T dataElement : *(this->containerPtr)) {
-            // Rotate by 1 because otherwise, xor is comutative.
-            this->cachedHash =
-                (this->cachedHash >> 1) | (this->cachedHash << 63);
-            this->cachedHash ^= hasher((T)dataElement);
+            // Append the hash of the element, so that all elements count,
+            // with their position and whatever their number.
+            this->cachedHash = Data::_Fnv1a_append_value(
+                this->cachedHash, hasher((T)dataElement));
         }
 
         // Validate the cached hash value
diff --git a/gegelatilib/include/data/pointerWrapper.h b/gegelatilib/include/data/pointerWrapper.h
index 0fbf6aa..2b82e04 100644
--- a/gegelatilib/include/data/pointerWrapper.h
+++ b/gegelatilib/include/data/pointerWrapper.h
@@ -154,11 +154,9 @@ namespace Data {
             // reset
             this->cachedHash = Data::Hash<size_t>()(this->id);
 
-            // Rotate by 1 because otherwise, xor is comutative.
-            this->cachedHash =
-                (this->cachedHash >> 1) | (this->cachedHash << 63);
-
-            this->cachedHash ^= Data::Hash<T>()(*this->containerPtr);
+            // Same hash as an array of one element.
+            this->cachedHash = Data::_Fnv1a_append_value(
+                this->cachedHash, Data::Hash<T>()(*this->containerPtr));
             return this->cachedHash;
         }
         else {
-- 
2.43.0


From 44a28c9fa8304ae6de635dc435f0a682d48fb18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:01 +0000
Subject: [PATCH 32/36] fix: report the failures of writing execution
 statistics

---
 gegelatilib/include/tpg/instrumented/executionStats.h |  3 +++
 gegelatilib/src/tpg/instrumented/executionStats.cpp   | 10 ++++++++++
 2 files changed, 13 insertions(+)

diff --git a/gegelatilib/include/tpg/instrumented/executionStats.h b/gegelatilib/include/tpg/instrumented/executionStats.h
index 693fb31..4b83207 100644
--- a/gegelatilib/include/tpg/instrumented/executionStats.h
+++ b/gegelatilib/include/tpg/instrumented/executionStats.h
@@ -361,6 +361,9 @@ namespace TPG {
          * will just be analyzed by another program, set this to true to save
          * some space on your disk. Set noIndent to false if you want to keep
          * the file readable.
+         *
+         * \throws std::runtime_error if the file could not be opened, or not
+         * be written entirely.
          */
         void writeStatsToJson(const char* filePath,
                               bool noIndent = false) const;
diff --git a/gegelatilib/src/tpg/instrumented/executionStats.cpp b/gegelatilib/src/tpg/instrumented/executionStats.cpp
index 26d0ae1..126ed0d 100644
--- a/gegelatilib/src/tpg/instrumented/executionStats.cpp
+++ b/gegelatilib/src/tpg/instrumented/executionStats.cpp
@@ -39,6 +39,8 @@
 #include <fstream>
 #include <json.h>
 #include <numeric>
+#include <stdexcept>
+#include <string>
 #include <vector>
 
 #include "program/program.h"
@@ -254,6 +256,10 @@ void TPG::ExecutionStats::writeStatsToJson(const char* filePath,
     }
 
     std::ofstream outputFile(filePath);
+    if (!outputFile.is_open()) {
+        throw std::runtime_error("Could not open file " +
+                                 std::string(filePath));
+    }
 
     Json::Value root;
 
@@ -326,4 +332,8 @@ void TPG::ExecutionStats::writeStatsToJson(const char* filePath,
     delete writer;
 
     outputFile.close();
+    if (!outputFile) {
+        throw std::runtime_error("Could not write file " +
+                                 std::string(filePath));
+    }
 }
-- 
2.43.0


From b962d87f586f6b887c014f6e26afede1a27d586a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:24 +0000
Subject: [PATCH 33/36] fix: train with the threads already started when no
 other can be created

---
 .../src/learn/parallelLearningAgent.cpp       | 20 +++++++++++++------
 gegelatilib/src/mutator/tpgMutator.cpp        |  9 ++++++++-
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/gegelatilib/src/learn/parallelLearningAgent.cpp b/gegelatilib/src/learn/parallelLearningAgent.cpp
index 49175b8..1964362 100644
--- a/gegelatilib/src/learn/parallelLearningAgent.cpp
+++ b/gegelatilib/src/learn/parallelLearningAgent.cpp
@@ -40,6 +40,7 @@
 #include <memory>
 #include <mutex>
 #include <queue>
+#include <system_error>
 #include <thread>
 
 #include "mutator/rng.h"
@@ -244,12 +245,19 @@ void Learn::ParallelLearningAgent::evaluateAllRootsInParallelExecute(
     // Create the threads
     std::vector<std::thread> threads;
     for (auto i = 0; i < (this->maxNbThreads - 1); i++) {
-        threads.emplace_back(std::thread(
-            &ParallelLearningAgent::slaveEvalJobThread, this, generationNumber,
-            mode, std::ref(jobsToProcess), std::ref(rootsToProcessMutex),
-            std::ref(resultsPerJobMap), std::ref(resultsPerRootMutex),
-            std::ref(archiveMap), std::ref(archiveMapMutex),
-            std::ref(*privateEnvironments.at(i))));
+        try {
+            threads.emplace_back(std::thread(
+                &ParallelLearningAgent::slaveEvalJobThread, this,
+                generationNumber, mode, std::ref(jobsToProcess),
+                std::ref(rootsToProcessMutex), std::ref(resultsPerJobMap),
+                std::ref(resultsPerRootMutex), std::ref(archiveMap),
+                std::ref(archiveMapMutex),
+                std::ref(*privateEnvironments.at(i))));
+        }
+        catch (const std::system_error&) {
+            // No more thread available: work with those already started.
+            break;
+        }
     }
 
     // Work in the main thread also, using the main environment
diff --git a/gegelatilib/src/mutator/tpgMutator.cpp b/gegelatilib/src/mutator/tpgMutator.cpp
index cf6be20..64dd8ce 100644
--- a/gegelatilib/src/mutator/tpgMutator.cpp
+++ b/gegelatilib/src/mutator/tpgMutator.cpp
@@ -39,6 +39,7 @@
 #include <numeric>
 #include <queue>
 #include <stdexcept>
+#include <system_error>
 #include <thread>
 #include <vector>
 
@@ -416,7 +417,13 @@ void Mutator::TPGMutator::mutateNewProgramBehaviors(
         // Start threads
         std::vector<std::thread> threads;
         for (auto idx = 0; idx < maxNbThreads - 1; idx++) {
-            threads.emplace_back(std::thread(parallelWorker));
+            try {
+                threads.emplace_back(std::thread(parallelWorker));
+            }
+            catch (const std::system_error&) {
+                // No more thread available: work with those already started.
+                break;
+            }
         }
 
         // Work in the main thread also
-- 
2.43.0


From 417ace414ff4d33c93cf73c0e26cd8abd93e6b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:52 +0000
Subject: [PATCH 34/36] fix: report to the caller the exceptions thrown by
 evaluations in threads

An exception thrown by the learning environment or by an instruction in a
thread created for the evaluation of the roots ended the process, and so did
one thrown in the main thread while the others were working. The first
exception is kept, the other threads end, and it is thrown again to the
caller. The archives filled so far are freed.
---
 .../src/learn/parallelLearningAgent.cpp       | 58 ++++++++++++++-----
 1 file changed, 42 insertions(+), 16 deletions(-)

diff --git a/gegelatilib/src/learn/parallelLearningAgent.cpp b/gegelatilib/src/learn/parallelLearningAgent.cpp
index 1964362..3d64e8a 100644
--- a/gegelatilib/src/learn/parallelLearningAgent.cpp
+++ b/gegelatilib/src/learn/parallelLearningAgent.cpp
@@ -36,6 +36,7 @@
  */
 
 #include <algorithm>
+#include <exception>
 #include <iterator>
 #include <memory>
 #include <mutex>
@@ -121,13 +122,13 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
         // Processing to do?
         if (doProcess) {
             // Dedicated archive for the root
-            Archive* temporaryArchive = NULL;
+            std::unique_ptr<Archive> temporaryArchive;
             if (mode == LearningMode::TRAINING) {
-                temporaryArchive =
-                    new Archive(params.archiveSize, params.archivingProbability,
-                                jobToProcess->getArchiveSeed());
+                temporaryArchive = std::make_unique<Archive>(
+                    params.archiveSize, params.archivingProbability,
+                    jobToProcess->getArchiveSeed());
             }
-            tee->setArchive(temporaryArchive);
+            tee->setArchive(temporaryArchive.get());
 
             std::shared_ptr<EvaluationResult> avgScore =
                 this->evaluateJob(*tee, *jobToProcess, generationNumber, mode,
@@ -144,7 +145,8 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
                 { // Insertion archiveMap update mutual exclusion zone
                     std::lock_guard<std::mutex> lock(archiveMapMutex);
                     archiveMap.insert(
-                        {jobToProcess->getIdx(), temporaryArchive});
+                        {jobToProcess->getIdx(), temporaryArchive.get()});
+                    temporaryArchive.release();
                 }
             }
         }
@@ -242,17 +244,35 @@ void Learn::ParallelLearningAgent::evaluateAllRootsInParallelExecute(
         privateEnvironments.emplace_back(this->learningEnvironment.clone());
     }
 
+    // First exception thrown during the evaluations, if any.
+    std::exception_ptr failure;
+
+    // Function executed in threads
+    auto parallelWorker = [&](LearningEnvironment& privateEnvironment) {
+        try {
+            this->slaveEvalJobThread(
+                generationNumber, mode, jobsToProcess, rootsToProcessMutex,
+                resultsPerJobMap, resultsPerRootMutex, archiveMap,
+                archiveMapMutex, privateEnvironment);
+        }
+        catch (...) {
+            // Keep the exception for the caller, and stop giving jobs.
+            std::lock_guard<std::mutex> lock(rootsToProcessMutex);
+            if (failure == nullptr) {
+                failure = std::current_exception();
+            }
+            while (!jobsToProcess.empty()) {
+                jobsToProcess.pop();
+            }
+        }
+    };
+
     // Create the threads
     std::vector<std::thread> threads;
     for (auto i = 0; i < (this->maxNbThreads - 1); i++) {
         try {
             threads.emplace_back(std::thread(
-                &ParallelLearningAgent::slaveEvalJobThread, this,
-                generationNumber, mode, std::ref(jobsToProcess),
-                std::ref(rootsToProcessMutex), std::ref(resultsPerJobMap),
-                std::ref(resultsPerRootMutex), std::ref(archiveMap),
-                std::ref(archiveMapMutex),
-                std::ref(*privateEnvironments.at(i))));
+                parallelWorker, std::ref(*privateEnvironments.at(i))));
         }
         catch (const std::system_error&) {
             // No more thread available: work with those already started.
@@ -261,15 +281,21 @@ void Learn::ParallelLearningAgent::evaluateAllRootsInParallelExecute(
     }
 
     // Work in the main thread also, using the main environment
-    this->slaveEvalJobThread(generationNumber, mode, jobsToProcess,
-                             rootsToProcessMutex, resultsPerJobMap,
-                             resultsPerRootMutex, archiveMap, archiveMapMutex,
-                             this->learningEnvironment);
+    parallelWorker(this->learningEnvironment);
 
     // Join the threads
     for (auto& thread : threads) {
         thread.join();
     }
+
+    if (failure != nullptr) {
+        // The archives will not be merged
+        for (auto& idxAndArchive : archiveMap) {
+            delete idxAndArchive.second;
+        }
+        archiveMap.clear();
+        std::rethrow_exception(failure);
+    }
 }
 
 void Learn::ParallelLearningAgent::evaluateAllRootsInParallelCompileResults(
-- 
2.43.0


From b6973770ae0437afa943d9f7875823b7f0882b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:52 +0000
Subject: [PATCH 35/36] fix: report to the caller the exceptions thrown by
 mutations in threads

An exception thrown by an instruction when a mutated program is executed on
the archive ended the process. The first exception is kept, the other threads
end, and it is thrown again to the caller.
---
 gegelatilib/src/mutator/tpgMutator.cpp | 32 +++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/gegelatilib/src/mutator/tpgMutator.cpp b/gegelatilib/src/mutator/tpgMutator.cpp
index 64dd8ce..79af27d 100644
--- a/gegelatilib/src/mutator/tpgMutator.cpp
+++ b/gegelatilib/src/mutator/tpgMutator.cpp
@@ -35,6 +35,7 @@
  */
 
 #include <algorithm>
+#include <exception>
 #include <mutex>
 #include <numeric>
 #include <queue>
@@ -387,9 +388,12 @@ void Mutator::TPGMutator::mutateNewProgramBehaviors(
 
         std::mutex mutexMutation;
 
-        // Function executed in threads
-        auto parallelWorker = [&programsToMutate, &mutexMutation, &params,
-                               &archive]() {
+        // First exception thrown during the mutations, if any.
+        std::exception_ptr failure;
+
+        // Do the jobs until there is none left
+        auto doJobs = [&programsToMutate, &mutexMutation, &params,
+                       &archive]() {
             Mutator::RNG privateRNG;
             // While there is work to be done
             bool jobDone;
@@ -414,6 +418,24 @@ void Mutator::TPGMutator::mutateNewProgramBehaviors(
             } while (jobDone);
         };
 
+        // Function executed in threads
+        auto parallelWorker = [&doJobs, &programsToMutate, &mutexMutation,
+                               &failure]() {
+            try {
+                doJobs();
+            }
+            catch (...) {
+                // Keep the exception for the caller, and stop giving jobs.
+                std::lock_guard lock(mutexMutation);
+                if (failure == nullptr) {
+                    failure = std::current_exception();
+                }
+                while (!programsToMutate.empty()) {
+                    programsToMutate.pop();
+                }
+            }
+        };
+
         // Start threads
         std::vector<std::thread> threads;
         for (auto idx = 0; idx < maxNbThreads - 1; idx++) {
@@ -433,6 +455,10 @@ void Mutator::TPGMutator::mutateNewProgramBehaviors(
         for (auto& thread : threads) {
             thread.join();
         }
+
+        if (failure != nullptr) {
+            std::rethrow_exception(failure);
+        }
     }
 }
 
-- 
2.43.0


From f9bbfc5becf5b2d301da435b6c504c39bcfebe53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:49 +0000
Subject: [PATCH 36/36] fix: give copies of an Environment their own registers
 and constants

The fake data sources of a copy referred to the registers and constants of the
copied Environment, which may be destroyed before its copy.
---
 gegelatilib/include/environment.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/gegelatilib/include/environment.h b/gegelatilib/include/environment.h
index a280a74..d0d040a 100644
--- a/gegelatilib/include/environment.h
+++ b/gegelatilib/include/environment.h
@@ -224,6 +224,18 @@ class Environment
             this->fakeDataSources.push_back(elem);
     };
 
+    /**
+     * \brief Copy constructor.
+     *
+     * The fake registers and constants of the copy are its own, not those of
+     * the copied Environment, which may be destroyed before its copy.
+     *
+     * \param[in] other the const reference to the copied Environment.
+     */
+    Environment(const Environment& other)
+        : Environment(other.instructionSet, other.dataSources,
+                      other.nbRegisters, other.nbConstants){};
+
     /**
      * \brief Get the size of the number of registers of this Environment.
      *
-- 
2.43.0

