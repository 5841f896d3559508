From e32e3c0d2c271d6d56b36c593ab7147cc397cdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 01/83] fix: index loaded files by their own name so a hot
 start can serve and evict them

---
 SmartCache/sim/cache/aiRL.go        | 2 +-
 SmartCache/sim/cache/simpleCache.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/SmartCache/sim/cache/aiRL.go b/SmartCache/sim/cache/aiRL.go
index a1a1dc0..ee366e3 100644
--- a/SmartCache/sim/cache/aiRL.go
+++ b/SmartCache/sim/cache/aiRL.go
@@ -363,7 +363,7 @@ func (cache *AIRL) Loads(inputString [][]byte, vars ...interface{}) {
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &curFileStats)
 			queue.Insert(cache.files, &curFileStats)
 			cache.size += curFileStats.Size
-			cache.stats.Data[curRecord.Filename] = &curFileStats
+			cache.stats.Data[curFileStats.Filename] = &curFileStats
 		case "STATS":
 			var curFileStats files.Stats
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &curFileStats)
diff --git a/SmartCache/sim/cache/simpleCache.go b/SmartCache/sim/cache/simpleCache.go
index dc4b80c..e2b9422 100644
--- a/SmartCache/sim/cache/simpleCache.go
+++ b/SmartCache/sim/cache/simpleCache.go
@@ -305,7 +305,7 @@ func (cache *SimpleCache) Loads(inputString [][]byte, _ ...interface{}) {
 				panic(unmarshalErr)
 			}
 			cache.size += curFileStats.Size
-			cache.stats.Data[curRecord.Filename] = &curFileStats
+			cache.stats.Data[curFileStats.Filename] = &curFileStats
 		case "STATS":
 			var curFileStats files.Stats
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &curFileStats)
-- 
2.43.0


From 8b9b60f134e1e3f533cce267baaee75adc147ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:35 +0000
Subject: [PATCH 02/83] fix: keep the initialized queue in the dataset verifier
 cache

---
 SmartCache/sim/cache/lruDatasetVerifier.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/SmartCache/sim/cache/lruDatasetVerifier.go b/SmartCache/sim/cache/lruDatasetVerifier.go
index eb19b2c..85e0bd1 100644
--- a/SmartCache/sim/cache/lruDatasetVerifier.go
+++ b/SmartCache/sim/cache/lruDatasetVerifier.go
@@ -26,9 +26,6 @@ func (cache *LRUDatasetVerifier) Init(param InitParameters) interface{} {
 	param.QueueType = queue.LRUQueue
 	cache.SimpleCache.Init(param)
 
-	cache.files = &queue.LRU{}
-	cache.stats.Data = make(map[int64]*files.Stats)
-
 	cache.datasetFileMap = make(map[int64]bool)
 	datasetFilePath := param.Dataset2TestPath
 
-- 
2.43.0


From 8a4f8c4b6825b0ca2331590564e8b83e27d99671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:35 +0000
Subject: [PATCH 03/83] fix: start the best-first queue listing at the last
 file

---
 SmartCache/sim/cache/queue/genericF.go | 2 +-
 SmartCache/sim/cache/queue/lfu.go      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/SmartCache/sim/cache/queue/genericF.go b/SmartCache/sim/cache/queue/genericF.go
index a63efba..7d75347 100644
--- a/SmartCache/sim/cache/queue/genericF.go
+++ b/SmartCache/sim/cache/queue/genericF.go
@@ -48,7 +48,7 @@ func (q *QueueBaseFloat) getQueue() []*files.Stats {
 
 	for idxOVal := len(q.orderedValues) - 1; idxOVal > -1; idxOVal-- {
 		curQueue := q.queue[q.orderedValues[idxOVal]]
-		for idx := len(curQueue); idx > -1; idx-- {
+		for idx := len(curQueue) - 1; idx > -1; idx-- {
 			filename := curQueue[idx]
 			fileStats, inQueue := q.files[filename]
 
diff --git a/SmartCache/sim/cache/queue/lfu.go b/SmartCache/sim/cache/queue/lfu.go
index b07ae31..f78adfe 100644
--- a/SmartCache/sim/cache/queue/lfu.go
+++ b/SmartCache/sim/cache/queue/lfu.go
@@ -45,7 +45,7 @@ func (q *LFU) getQueue() []*files.Stats {
 
 	for idxOVal := len(q.orderedValues) - 1; idxOVal > -1; idxOVal-- {
 		curQueue := q.queue[q.orderedValues[idxOVal]]
-		for idx := len(curQueue); idx > -1; idx-- {
+		for idx := len(curQueue) - 1; idx > -1; idx-- {
 			filename := curQueue[idx]
 			fileStats, inQueue := q.files[filename]
 
-- 
2.43.0


From 7499ddb109f8fa9c975597c8febf4d7e3c680a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 04/83] fix: load every record of a weight function cache dump
 and restore its weight sum

---
 SmartCache/sim/cache/files/stats.go |  8 ++++++++
 SmartCache/sim/cache/weightFun.go   | 18 ++++++++++++------
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/SmartCache/sim/cache/files/stats.go b/SmartCache/sim/cache/files/stats.go
index 2d4f0eb..5721de7 100644
--- a/SmartCache/sim/cache/files/stats.go
+++ b/SmartCache/sim/cache/files/stats.go
@@ -168,6 +168,14 @@ func (s *Manager) UpdateWeight(stats *Stats, newFile bool, wFun functions.Weight
 	}
 }
 
+// RestoreWeightSum recomputes the sum of all weights from the current stats
+func (s *Manager) RestoreWeightSum() {
+	s.weightSum = 0.0
+	for _, fileStats := range s.Data {
+		s.weightSum += fileStats.Weight
+	}
+}
+
 // GetWeightMedian returns the mean of the weight of all files
 func (s *Manager) GetWeightMedian() float64 {
 	return s.weightSum / float64(len(s.Data))
diff --git a/SmartCache/sim/cache/weightFun.go b/SmartCache/sim/cache/weightFun.go
index d85cba6..d67675f 100644
--- a/SmartCache/sim/cache/weightFun.go
+++ b/SmartCache/sim/cache/weightFun.go
@@ -93,9 +93,14 @@ func (cache *WeightFun) Loads(inputString [][]byte, _ ...interface{}) {
 		unmarshalErr  error
 	)
 	for _, record := range inputString {
-		buffer := record[:len(record)-1]
-		json.Unmarshal(buffer, &curRecord)
-		json.Unmarshal([]byte(curRecord.Info), &curRecordInfo)
+		unmarshalErr = json.Unmarshal(record, &curRecord)
+		if unmarshalErr != nil {
+			panic(unmarshalErr)
+		}
+		unmarshalErr = json.Unmarshal([]byte(curRecord.Info), &curRecordInfo)
+		if unmarshalErr != nil {
+			panic(unmarshalErr)
+		}
 		switch curRecordInfo.Type {
 		case "FILES":
 			var curFileStats files.Stats
@@ -105,18 +110,19 @@ func (cache *WeightFun) Loads(inputString [][]byte, _ ...interface{}) {
 			}
 			queue.Insert(cache.files, &curFileStats)
 			cache.size += curFileStats.Size
-			cache.stats.Data[curRecord.Filename] = &curFileStats
+			cache.stats.Data[curFileStats.Filename] = &curFileStats
 		case "STATS":
 			var curFileStats files.Stats
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &curFileStats)
 			if unmarshalErr != nil {
 				panic(unmarshalErr)
 			}
-			if _, inStats := cache.stats.Data[curRecord.Filename]; !inStats {
-				cache.stats.Data[curRecord.Filename] = &curFileStats
+			if _, inStats := cache.stats.Data[curFileStats.Filename]; !inStats {
+				cache.stats.Data[curFileStats.Filename] = &curFileStats
 			}
 		}
 	}
+	cache.stats.RestoreWeightSum()
 }
 
 // BeforeRequest of LRU cache
-- 
2.43.0


From b333ce1618bcc4c8c3ea2a5bdf645f56e8d9c1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 05/83] fix: dump the position in the request times ring with
 the file stats

---
 SmartCache/sim/cache/files/stats.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SmartCache/sim/cache/files/stats.go b/SmartCache/sim/cache/files/stats.go
index 5721de7..56f42dd 100644
--- a/SmartCache/sim/cache/files/stats.go
+++ b/SmartCache/sim/cache/files/stats.go
@@ -207,7 +207,7 @@ type Stats struct {
 	RequestedTimesMean float64     `json:"requestedTimesMean"`
 	RequestedTimes     []time.Time `json:"requestedTimes"`
 	DeltaLastRequest   int64       `json:"deltaLastRequest"`
-	idxLastRequest     int
+	IdxLastRequest     int         `json:"idxLastRequest"`
 }
 
 // DiffLastUpdate returns the number of days from the last update stats
@@ -230,8 +230,8 @@ func (stats *Stats) UpdateStats(hit bool, size float64, userID int64, siteName i
 	if len(stats.RequestedTimes) < NumRequestedTimes {
 		stats.RequestedTimes = append(stats.RequestedTimes, time.Time{})
 	}
-	stats.RequestedTimes[stats.idxLastRequest] = curTime
-	stats.idxLastRequest = (stats.idxLastRequest + 1) % NumRequestedTimes
+	stats.RequestedTimes[stats.IdxLastRequest] = curTime
+	stats.IdxLastRequest = (stats.IdxLastRequest + 1) % NumRequestedTimes
 }
 
 func (stats *Stats) updateWeight(wFun functions.WeightFun, alpha float64, beta float64, gamma float64) float64 {
-- 
2.43.0


From fd54dc5de402a0a062ae81224ac46c17bb6c8126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:06 +0000
Subject: [PATCH 06/83] fix: keep the weight sum with the stats it belongs to,
 reset all of it on a full clear

---
 SmartCache/sim/cache/files/stats.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/SmartCache/sim/cache/files/stats.go b/SmartCache/sim/cache/files/stats.go
index 56f42dd..a2453f3 100644
--- a/SmartCache/sim/cache/files/stats.go
+++ b/SmartCache/sim/cache/files/stats.go
@@ -31,6 +31,10 @@ type Manager struct {
 func (s *Manager) Init(maxNumDayDiff float64, deltaDaysStep float64, calcWeight bool) {
 	s.Data = make(map[int64]*Stats, estimatedNumFiles)
 	s.deletedFileMiss = make(map[int64]int, estimatedNumFiles)
+	s.deletedFilesMissLastCount = 0
+	s.weightSum = 0.0
+	s.firstUpdateTime = time.Time{}
+	s.lastUpdateTime = time.Time{}
 	s.calcWeight = calcWeight
 	s.maxNumDayDiff = maxNumDayDiff
 	s.deltaDaysStep = deltaDaysStep
@@ -73,7 +77,6 @@ func (s *Manager) Clear() {
 	for _, fileStats := range s.Data {
 		fileStats.Recency = 0
 	}
-	s.weightSum = 0.0
 }
 
 // Dirty indicates if the stats needs a purge
-- 
2.43.0


From 3a8a35c39f49d97e6460c6afb6ec160550947f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 07/83] fix: make a learning agent serializable, its table was
 missing from every dump

---
 SmartCache/sim/cache/ai/qlearn/qlearn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SmartCache/sim/cache/ai/qlearn/qlearn.go b/SmartCache/sim/cache/ai/qlearn/qlearn.go
index 64254cc..82e6df4 100644
--- a/SmartCache/sim/cache/ai/qlearn/qlearn.go
+++ b/SmartCache/sim/cache/ai/qlearn/qlearn.go
@@ -191,7 +191,7 @@ type Choice struct {
 
 // Agent used in Qlearning
 type Agent struct {
-	Memory              map[interface{}][]Choice `json:"memory"`
+	Memory              map[interface{}][]Choice `json:"-"`
 	QTable              QTable                   `json:"qtable"`
 	NumStates           int                      `json:"numStates"`
 	NumVars             int                      `json:"numVars"`
-- 
2.43.0


From d28180b40af2452ed03f11e50de68a3e0a16f88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 08/83] fix: keep the eviction categories in step with the
 files after a load or a clear

---
 SmartCache/sim/cache/aiRL.go | 45 +++++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/SmartCache/sim/cache/aiRL.go b/SmartCache/sim/cache/aiRL.go
index ee366e3..21bb7f4 100644
--- a/SmartCache/sim/cache/aiRL.go
+++ b/SmartCache/sim/cache/aiRL.go
@@ -139,14 +139,7 @@ func (cache *AIRL) Init(params InitParameters) interface{} { //nolint:ignore,fun
 				params.AIRLEvictionEpsilonUnleash,
 				params.RandSeed,
 			)
-			cache.evictionCategoryManager = CategoryManager{}
-			cache.evictionCategoryManager.Init(
-				cache.evictionFeatureManager.Features,
-				cache.evictionFeatureManager.FeatureIdxWeights,
-				cache.evictionFeatureManager.FileFeatures,
-				cache.evictionFeatureManager.FileFeatureIdxWeights,
-				cache.evictionFeatureManager.FileFeatureIdxMap,
-			)
+			cache.resetCategories()
 
 			cache.evictionCheckNextStateMap = make(map[[8]byte]bool)
 			cache.evictionAgentOK = true
@@ -196,6 +189,39 @@ func (cache *AIRL) Init(params InitParameters) interface{} { //nolint:ignore,fun
 	return nil
 }
 
+// resetCategories rebuilds the eviction categories from the stored files
+func (cache *AIRL) resetCategories() {
+	cache.evictionCategoryManager = CategoryManager{}
+	cache.evictionCategoryManager.Init(
+		cache.evictionFeatureManager.Features,
+		cache.evictionFeatureManager.FeatureIdxWeights,
+		cache.evictionFeatureManager.FileFeatures,
+		cache.evictionFeatureManager.FileFeatureIdxWeights,
+		cache.evictionFeatureManager.FileFeatureIdxMap,
+	)
+
+	for _, file := range queue.GetFromWorst(cache.files) {
+		fileCategory := cache.evictionCategoryManager.GetFileCategory(file)
+		cache.evictionCategoryManager.AddOrUpdateCategoryFile(fileCategory, file)
+	}
+}
+
+// ClearFiles remove the cache files
+func (cache *AIRL) ClearFiles() {
+	cache.SimpleCache.ClearFiles()
+
+	if cache.evictionAgentOK {
+		cache.resetCategories()
+	}
+}
+
+// Clear the AIRL struct
+func (cache *AIRL) Clear() {
+	cache.SimpleCache.Clear()
+	cache.ClearFiles()
+	cache.ClearStats()
+}
+
 // ClearStats the cache stats
 func (cache *AIRL) ClearStats() {
 	cache.SimpleCache.ClearStats()
@@ -388,6 +414,9 @@ func (cache *AIRL) Loads(inputString [][]byte, vars ...interface{}) {
 		}
 	}
 
+	if cache.evictionAgentOK {
+		cache.resetCategories()
+	}
 }
 
 func (cache *AIRL) getState4AdditionAgent(hit bool, curFileStats *files.Stats) int {
-- 
2.43.0


From 15a42652b59e00b8285c5dbfb4b16b1f7d447ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 09/83] fix: do not divide by zero on a day without any served
 request

---
 SmartCache/sim/cache/aiRL.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/SmartCache/sim/cache/aiRL.go b/SmartCache/sim/cache/aiRL.go
index 21bb7f4..6f0dfb4 100644
--- a/SmartCache/sim/cache/aiRL.go
+++ b/SmartCache/sim/cache/aiRL.go
@@ -1337,6 +1337,10 @@ func writeQTable(outFilename string, data string) {
 }
 
 func (cache *AIRL) meanNumCategories() int {
+	if len(cache.numDailyCategories) == 0 {
+		return 0
+	}
+
 	return cache.sumNumDailyCategories / len(cache.numDailyCategories)
 }
 
-- 
2.43.0


From f5d6d8d6ac65ca8634f5abbf24c32040ebb980ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 10/83] fix: read the plain csv files of a simulation folder

---
 SmartCache/sim/cache/simulation.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/SmartCache/sim/cache/simulation.go b/SmartCache/sim/cache/simulation.go
index cf3909c..de12172 100644
--- a/SmartCache/sim/cache/simulation.go
+++ b/SmartCache/sim/cache/simulation.go
@@ -256,8 +256,7 @@ func OpenSimFolder(dirPath *os.File) chan CSVRecord {
 		for _, name := range fileList {
 			fileExt := path.Ext(name)
 			switch fileExt {
-			case ".csv":
-			case ".gz":
+			case ".csv", ".gz":
 				for record := range OpenSimFile(name) {
 					channel <- record
 				}
-- 
2.43.0


From ee3465bc2a48728b5fc9a7e3376077eac97f579d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 11/83] fix: read the job exit code, the success filter depends
 on it

---
 SmartCache/sim/cache/simulation.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SmartCache/sim/cache/simulation.go b/SmartCache/sim/cache/simulation.go
index de12172..f46f48c 100644
--- a/SmartCache/sim/cache/simulation.go
+++ b/SmartCache/sim/cache/simulation.go
@@ -128,6 +128,7 @@ func recordGenerator(csvReader *csv.Reader, curFile *os.File, headerMap []int) c
 			taskMonitorID, _ := strconv.ParseInt(record[headerMap[4]], 10, 64)
 			jobID, _ := strconv.ParseInt(record[headerMap[5]], 10, 64)
 			protocol, _ := strconv.ParseInt(record[headerMap[6]], 10, 64)
+			jobExecExitCode, _ := strconv.ParseInt(record[headerMap[7]], 10, 64)
 			size, _ := strconv.ParseFloat(record[headerMap[13]], 64)
 			dataType, _ := strconv.ParseInt(record[headerMap[14]], 10, 64)
 			fileType, _ := strconv.ParseInt(record[headerMap[15]], 10, 64)
@@ -164,6 +165,8 @@ func recordGenerator(csvReader *csv.Reader, curFile *os.File, headerMap []int) c
 				SizeM:         sizeInMegabytes,
 				Campaign:      campaign,
 				Process:       process,
+
+				JobExecExitCode: jobExecExitCode,
 			}
 
 			// fmt.Println(curRecord)
-- 
2.43.0


From 9d2a5936c91173215646e2cf75e81efa55af3318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 12/83] fix: read the features of a feature map in a fixed
 order

---
 SmartCache/sim/cache/ai/featuremap/featuremap.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/SmartCache/sim/cache/ai/featuremap/featuremap.go b/SmartCache/sim/cache/ai/featuremap/featuremap.go
index 5523f40..4bd4633 100644
--- a/SmartCache/sim/cache/ai/featuremap/featuremap.go
+++ b/SmartCache/sim/cache/ai/featuremap/featuremap.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path/filepath"
 	"reflect"
+	"sort"
 
 	"go.uber.org/zap"
 )
@@ -125,10 +126,15 @@ func (manager *FeatureManager) Populate(featureMapFilePath string) { //nolint:ig
 	manager.FileFeatureIdxMap = make(map[string]int)
 
 	if mainType := reflect.TypeOf(tmpMap).Kind(); mainType == reflect.Map { //nolint:ignore,nestif
-		mapIter := reflect.ValueOf(tmpMap).MapRange()
-		for mapIter.Next() {
-			feature := mapIter.Key().String()
-			curFeature := mapIter.Value()
+		mapValue := reflect.ValueOf(tmpMap)
+		mapKeys := mapValue.MapKeys()
+		sort.Slice(mapKeys, func(i, j int) bool {
+			return mapKeys[i].String() < mapKeys[j].String()
+		})
+
+		for _, mapKey := range mapKeys {
+			feature := mapKey.String()
+			curFeature := mapValue.MapIndex(mapKey)
 
 			if featureType := curFeature.Elem().Kind(); featureType == reflect.Map {
 				featureIter := curFeature.Elem().MapRange()
-- 
2.43.0


From 19e68229f36b8488bf748416f052fe5467b7a9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 13/83] fix: decode dumped feature maps into fresh objects,
 their buckets overwrote each other

---
 SmartCache/sim/cache/aiRL.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/SmartCache/sim/cache/aiRL.go b/SmartCache/sim/cache/aiRL.go
index 6f0dfb4..0f08b0c 100644
--- a/SmartCache/sim/cache/aiRL.go
+++ b/SmartCache/sim/cache/aiRL.go
@@ -397,16 +397,20 @@ func (cache *AIRL) Loads(inputString [][]byte, vars ...interface{}) {
 				cache.stats.Data[curRecord.Filename] = &curFileStats
 			}
 		case "ADDAGENT":
+			cache.additionAgent.QTable.FeatureManager = nil
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &cache.additionAgent)
 			cache.additionAgent.ResetParams(initEpsilon, decayRateEpsilon)
 			cache.additionAgentOK = true
 		case "ADDFEATUREMAPMANAGER":
+			cache.additionFeatureManager = featuremap.FeatureManager{}
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &cache.additionFeatureManager)
 		case "EVCAGENT":
+			cache.evictionAgent.QTable.FeatureManager = nil
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &cache.evictionAgent)
 			cache.evictionAgent.ResetParams(initEpsilon, decayRateEpsilon)
 			cache.evictionAgentOK = true
 		case "EVCFEATUREMAPMANAGER":
+			cache.evictionFeatureManager = featuremap.FeatureManager{}
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &cache.evictionFeatureManager)
 		}
 		if unmarshalErr != nil {
-- 
2.43.0


From 9e914b2764f8864b364974df8b5777c818809a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 14/83] fix: allow a hot start in an output folder without
 previous results

---
 SmartCache/sim/cache/simulation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SmartCache/sim/cache/simulation.go b/SmartCache/sim/cache/simulation.go
index f46f48c..44199e0 100644
--- a/SmartCache/sim/cache/simulation.go
+++ b/SmartCache/sim/cache/simulation.go
@@ -688,7 +688,7 @@ func Simulate(cacheType string, cacheInstance Cache, param SimulationParams) { /
 				latestCacheRun,
 			),
 		)
-		if renameErr != nil {
+		if renameErr != nil && !os.IsNotExist(renameErr) {
 			panic(renameErr)
 		}
 
-- 
2.43.0


From 7bdb4f46df66e266921294c7b0a015247c570e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 15/83] fix: number the previous results by the folder they are
 in, they were overwritten

---
 SmartCache/sim/cache/simulation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SmartCache/sim/cache/simulation.go b/SmartCache/sim/cache/simulation.go
index 44199e0..da62ab7 100644
--- a/SmartCache/sim/cache/simulation.go
+++ b/SmartCache/sim/cache/simulation.go
@@ -679,7 +679,7 @@ func Simulate(cacheType string, cacheInstance Cache, param SimulationParams) { /
 	if param.LoadDump { //nolint:ignore,nestif
 		logger.Info("Loading cache dump", zap.String("filename", param.LoadDumpFileName))
 
-		latestCacheRun := GetSimulationRunNum(filepath.Dir(param.LoadDumpFileName))
+		latestCacheRun := GetSimulationRunNum(filepath.Dir(param.OutFile))
 
 		renameErr := os.Rename(
 			param.OutFile,
-- 
2.43.0


From 8670d61fbe8c3f994f8a0806bcd5f618f5b9ec13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 16/83] fix: walk the eviction categories in a fixed order, the
 random draws depended on the map order

---
 SmartCache/sim/cache/aiRLCatStateManager.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/SmartCache/sim/cache/aiRLCatStateManager.go b/SmartCache/sim/cache/aiRLCatStateManager.go
index 9bc1d45..9b9cb9b 100644
--- a/SmartCache/sim/cache/aiRLCatStateManager.go
+++ b/SmartCache/sim/cache/aiRLCatStateManager.go
@@ -1,6 +1,8 @@
 package cache
 
 import (
+	"sort"
+
 	"simulator/v2/cache/ai/featuremap"
 	"simulator/v2/cache/ai/qlearn"
 	"simulator/v2/cache/files"
@@ -162,7 +164,13 @@ func (catMan *CategoryManager) GetStateFromCategories(newStates bool, agent qlea
 		defer close(catMan.generatorChan)
 		if newStates {
 			catMan.lastStateAction = make(map[int]CatState)
+			catIDs := make([]int, 0, len(catMan.categoryFileListMap))
 			for catID := range catMan.categoryFileListMap {
+				catIDs = append(catIDs, catID)
+			}
+			sort.Ints(catIDs)
+
+			for _, catID := range catIDs {
 				curCat := catMan.categoryFileFeatureIdx[catID]
 				catMan.buffer = catMan.buffer[:0]
 
@@ -210,8 +218,14 @@ func (catMan *CategoryManager) GetStateFromCategories(newStates bool, agent qlea
 				catMan.generatorChan <- curCatState
 			}
 		} else {
-			for _, curCatState := range catMan.lastStateAction {
-				catMan.generatorChan <- curCatState
+			states := make([]int, 0, len(catMan.lastStateAction))
+			for state := range catMan.lastStateAction {
+				states = append(states, state)
+			}
+			sort.Ints(states)
+
+			for _, state := range states {
+				catMan.generatorChan <- catMan.lastStateAction[state]
 			}
 		}
 	}()
-- 
2.43.0


From 90afc3377bce677852ed1d5a3568c1d5c7a4c8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 17/83] fix: log the additions of the weight function, dataset
 verifier and infinite caches

---
 SmartCache/sim/cache/infiniteCache.go      | 15 +++++++++++++++
 SmartCache/sim/cache/lruDatasetVerifier.go | 14 ++++++++++++++
 SmartCache/sim/cache/weightFun.go          | 13 +++++++++++++
 3 files changed, 42 insertions(+)

diff --git a/SmartCache/sim/cache/infiniteCache.go b/SmartCache/sim/cache/infiniteCache.go
index b07f8f2..5c9fa76 100644
--- a/SmartCache/sim/cache/infiniteCache.go
+++ b/SmartCache/sim/cache/infiniteCache.go
@@ -1,6 +1,8 @@
 package cache
 
 import (
+	"fmt"
+
 	"simulator/v2/cache/files"
 	"simulator/v2/cache/queue"
 )
@@ -41,6 +43,19 @@ func (cache *InfiniteCache) UpdatePolicy(request *Request, fileStats *files.Stat
 
 		cache.size += requestedFileSize
 		cache.MaxSize += requestedFileSize
+
+		if cache.logFile != nil {
+			cache.toLogBuffer([]string{
+				fmt.Sprintf("%d", cache.tick),
+				ChoiceAdd,
+				fmt.Sprintf("%0.2f", cache.size),
+				fmt.Sprintf("%0.2f", cache.Capacity()),
+				fmt.Sprintf("%d", fileStats.Filename),
+				fmt.Sprintf("%0.2f", fileStats.Size),
+				fmt.Sprintf("%d", fileStats.Frequency),
+				fmt.Sprintf("%d", fileStats.DeltaLastRequest),
+			})
+		}
 	}
 
 	return added
diff --git a/SmartCache/sim/cache/lruDatasetVerifier.go b/SmartCache/sim/cache/lruDatasetVerifier.go
index 85e0bd1..c6728f8 100644
--- a/SmartCache/sim/cache/lruDatasetVerifier.go
+++ b/SmartCache/sim/cache/lruDatasetVerifier.go
@@ -3,6 +3,7 @@ package cache
 import (
 	"compress/gzip"
 	"encoding/json"
+	"fmt"
 	"log"
 	"os"
 
@@ -71,6 +72,19 @@ func (cache *LRUDatasetVerifier) UpdatePolicy(request *Request, fileStats *files
 				queue.Insert(cache.files, fileStats)
 
 				cache.size += requestedFileSize
+
+				if cache.logFile != nil {
+					cache.toLogBuffer([]string{
+						fmt.Sprintf("%d", cache.tick),
+						ChoiceAdd,
+						fmt.Sprintf("%0.2f", cache.size),
+						fmt.Sprintf("%0.2f", cache.Capacity()),
+						fmt.Sprintf("%d", fileStats.Filename),
+						fmt.Sprintf("%0.2f", fileStats.Size),
+						fmt.Sprintf("%d", fileStats.Frequency),
+						fmt.Sprintf("%d", fileStats.DeltaLastRequest),
+					})
+				}
 				added = true
 			}
 		}
diff --git a/SmartCache/sim/cache/weightFun.go b/SmartCache/sim/cache/weightFun.go
index d67675f..d717615 100644
--- a/SmartCache/sim/cache/weightFun.go
+++ b/SmartCache/sim/cache/weightFun.go
@@ -166,6 +166,19 @@ func (cache *WeightFun) UpdatePolicy(request *Request, fileStats *files.Stats, h
 
 			queue.Insert(cache.files, fileStats)
 
+			if cache.logFile != nil {
+				cache.toLogBuffer([]string{
+					fmt.Sprintf("%d", cache.tick),
+					ChoiceAdd,
+					fmt.Sprintf("%0.2f", cache.size),
+					fmt.Sprintf("%0.2f", cache.Capacity()),
+					fmt.Sprintf("%d", fileStats.Filename),
+					fmt.Sprintf("%0.2f", fileStats.Size),
+					fmt.Sprintf("%d", fileStats.Frequency),
+					fmt.Sprintf("%d", fileStats.DeltaLastRequest),
+				})
+			}
+
 			added = true
 		}
 	} else {
-- 
2.43.0


From 6d0010db6850fcee55bb72e45616a6145a5c2513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:13 +0000
Subject: [PATCH 18/83] fix: continue the request numbering after a load, new
 requests looked older than the loaded files

---
 SmartCache/sim/cache/aiRL.go        |  2 ++
 SmartCache/sim/cache/simpleCache.go | 11 +++++++++++
 SmartCache/sim/cache/weightFun.go   |  1 +
 3 files changed, 14 insertions(+)

diff --git a/SmartCache/sim/cache/aiRL.go b/SmartCache/sim/cache/aiRL.go
index 0f08b0c..e35763a 100644
--- a/SmartCache/sim/cache/aiRL.go
+++ b/SmartCache/sim/cache/aiRL.go
@@ -418,6 +418,8 @@ func (cache *AIRL) Loads(inputString [][]byte, vars ...interface{}) {
 		}
 	}
 
+	cache.resumeTick()
+
 	if cache.evictionAgentOK {
 		cache.resetCategories()
 	}
diff --git a/SmartCache/sim/cache/simpleCache.go b/SmartCache/sim/cache/simpleCache.go
index e2b9422..bf3fade 100644
--- a/SmartCache/sim/cache/simpleCache.go
+++ b/SmartCache/sim/cache/simpleCache.go
@@ -317,6 +317,17 @@ func (cache *SimpleCache) Loads(inputString [][]byte, _ ...interface{}) {
 			}
 		}
 	}
+	cache.resumeTick()
+}
+
+// resumeTick continues the request numbering after the latest loaded request,
+// so that the loaded files stay less recent than the ones requested from now on
+func (cache *SimpleCache) resumeTick() {
+	for _, fileStats := range cache.stats.Data {
+		if fileStats.Recency >= cache.tick {
+			cache.tick = fileStats.Recency + 1
+		}
+	}
 }
 
 // Load the SimpleCache cache
diff --git a/SmartCache/sim/cache/weightFun.go b/SmartCache/sim/cache/weightFun.go
index d717615..9f3d133 100644
--- a/SmartCache/sim/cache/weightFun.go
+++ b/SmartCache/sim/cache/weightFun.go
@@ -123,6 +123,7 @@ func (cache *WeightFun) Loads(inputString [][]byte, _ ...interface{}) {
 		}
 	}
 	cache.stats.RestoreWeightSum()
+	cache.resumeTick()
 }
 
 // BeforeRequest of LRU cache
-- 
2.43.0


From ce5cc5052dade61f09720dd29eeb564cfaa2f039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:27 +0000
Subject: [PATCH 19/83] fix: use the configuration file given, not another one
 of the same name

---
 SmartCache/sim/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/SmartCache/sim/main.go b/SmartCache/sim/main.go
index 833bb63..a6730be 100644
--- a/SmartCache/sim/main.go
+++ b/SmartCache/sim/main.go
@@ -231,6 +231,11 @@ func simCommand() *cobra.Command { //nolint:ignore,funlen
 			logger.Info("Load config file")
 			configureViper(configFilenameWithNoExt)
 
+			// Without the name of the file, viper looks for the first file with any known extension
+			if fileStat, errStat := os.Stat(configFilename); errStat == nil && !fileStat.IsDir() {
+				viper.SetConfigFile(configFilename)
+			}
+
 			if err := viper.ReadInConfig(); err != nil {
 				if _, ok := err.(viper.ConfigFileNotFoundError); ok {
 					// Config file not found; ignore error if desired
-- 
2.43.0


From 4e8f46015e8aa2cadc68544aad56bf968c2f2523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:14 +0000
Subject: [PATCH 20/83] fix: rebuild the eviction categories in a fixed order,
 restarted runs depended on the map order

---
 SmartCache/sim/cache/aiRL.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/SmartCache/sim/cache/aiRL.go b/SmartCache/sim/cache/aiRL.go
index e35763a..9186e9e 100644
--- a/SmartCache/sim/cache/aiRL.go
+++ b/SmartCache/sim/cache/aiRL.go
@@ -200,7 +200,17 @@ func (cache *AIRL) resetCategories() {
 		cache.evictionFeatureManager.FileFeatureIdxMap,
 	)
 
-	for _, file := range queue.GetFromWorst(cache.files) {
+	// The files of an eviction agent have no order of their own
+	storedFiles := queue.GetFromWorst(cache.files)
+	sort.Slice(storedFiles, func(i, j int) bool {
+		if storedFiles[i].Recency != storedFiles[j].Recency {
+			return storedFiles[i].Recency < storedFiles[j].Recency
+		}
+
+		return storedFiles[i].Filename < storedFiles[j].Filename
+	})
+
+	for _, file := range storedFiles {
 		fileCategory := cache.evictionCategoryManager.GetFileCategory(file)
 		cache.evictionCategoryManager.AddOrUpdateCategoryFile(fileCategory, file)
 	}
-- 
2.43.0


From 877e95b8fce0ab8641b15ed3208138f9dd292794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:25 +0000
Subject: [PATCH 21/83] fix: sum and purge the file weights in a fixed order,
 the mean weight of equal runs differed

---
 SmartCache/sim/cache/files/stats.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/SmartCache/sim/cache/files/stats.go b/SmartCache/sim/cache/files/stats.go
index a2453f3..9555447 100644
--- a/SmartCache/sim/cache/files/stats.go
+++ b/SmartCache/sim/cache/files/stats.go
@@ -3,6 +3,7 @@ package files
 import (
 	"math"
 	"simulator/v2/cache/functions"
+	"sort"
 	"time"
 
 	"go.uber.org/zap"
@@ -95,12 +96,25 @@ func (s Manager) Dirty() bool {
 	return false
 }
 
+// sortedFilenames returns the known files in a fixed order, a sum of weights depends on it
+func (s *Manager) sortedFilenames() []int64 {
+	filenames := make([]int64, 0, len(s.Data))
+	for filename := range s.Data {
+		filenames = append(filenames, filename)
+	}
+
+	sort.Slice(filenames, func(i, j int) bool { return filenames[i] < filenames[j] })
+
+	return filenames
+}
+
 // Purge remove older stats
 func (s *Manager) Purge(has func(int64) bool) {
 	numDeletedFiles := 0
 
-	for filename, stats := range s.Data {
+	for _, filename := range s.sortedFilenames() {
 		curFilename := filename
+		stats := s.Data[filename]
 
 		if inCache := has(curFilename); !inCache && stats.DiffLastUpdate(s.lastUpdateTime) >= s.maxNumDayDiff {
 			s.logger.Debug("Purge", zap.Bool("in cache", inCache))
@@ -174,8 +188,8 @@ func (s *Manager) UpdateWeight(stats *Stats, newFile bool, wFun functions.Weight
 // RestoreWeightSum recomputes the sum of all weights from the current stats
 func (s *Manager) RestoreWeightSum() {
 	s.weightSum = 0.0
-	for _, fileStats := range s.Data {
-		s.weightSum += fileStats.Weight
+	for _, filename := range s.sortedFilenames() {
+		s.weightSum += s.Data[filename].Weight
 	}
 }
 
-- 
2.43.0


From 9354aefbe436dfc8dd770350e83feddd9a6ecd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:54 +0000
Subject: [PATCH 22/83] fix: inserting an already stored or too large file no
 longer empties the small simulator's cache

---
 qLearning_smartCache/cache/cache.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qLearning_smartCache/cache/cache.go b/qLearning_smartCache/cache/cache.go
index bff1fe8..f2b9887 100644
--- a/qLearning_smartCache/cache/cache.go
+++ b/qLearning_smartCache/cache/cache.go
@@ -81,8 +81,13 @@ func (cache SimCache) GetPoints() float64 {
 }
 
 // Insert add a file into the cache. If there is no space left, it starts to
-// remove the files with less value and then adds it when there is space
+// remove the files with less value and then adds it when there is space.
+// Nothing changes if the file is already stored or cannot fit at all
 func (cache *SimCache) Insert(fileName string, size float64) {
+	if _, inCache := cache.files[fileName]; inCache || size > cache.MaxSize {
+		return
+	}
+
 	if cache.GetSize()+size > cache.MaxSize {
 		for {
 			fileName, _ := cache.GetMinValue()
-- 
2.43.0


From 138407adc4ea0d7b833747dfabebfc90c14ee988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:05 +0000
Subject: [PATCH 23/83] fix: an update of the small simulator's Q-table changes
 the given action, not the one at its numeric position

---
 qLearning_smartCache/qtable/qtable.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/qLearning_smartCache/qtable/qtable.go b/qLearning_smartCache/qtable/qtable.go
index 65ffc1f..adee634 100644
--- a/qLearning_smartCache/qtable/qtable.go
+++ b/qLearning_smartCache/qtable/qtable.go
@@ -160,9 +160,8 @@ func getArgMax(array []float64) int {
 	return maxIdx
 }
 
-// GetAction returns the possible environment action from a state
-func (table QTable) GetAction(stateIdx uint64, action ActionType) float64 {
-	values := table.states[stateIdx]
+// getActionIdx returns the position of an action in the state values
+func (table QTable) getActionIdx(action ActionType) int {
 	outIdx := 0
 	for idx := 0; idx < len(table.actions); idx++ {
 		if table.actions[idx] == action {
@@ -170,7 +169,12 @@ func (table QTable) GetAction(stateIdx uint64, action ActionType) float64 {
 			break
 		}
 	}
-	return values[outIdx]
+	return outIdx
+}
+
+// GetAction returns the possible environment action from a state
+func (table QTable) GetAction(stateIdx uint64, action ActionType) float64 {
+	return table.states[stateIdx][table.getActionIdx(action)]
 }
 
 // GetBestAction returns the action of the best action for the given state
@@ -206,5 +210,5 @@ func (table *QTable) Update(state []float64, action ActionType, reward float64)
 	stateIdx := table.GetStateIdx(state)
 	actionValue := table.GetAction(stateIdx, action)
 	maxValue := getArgMax(table.states[stateIdx])
-	table.states[stateIdx][action] = actionValue + table.learningRate*(reward+table.DecayRate*table.states[stateIdx][maxValue]-actionValue)
+	table.states[stateIdx][table.getActionIdx(action)] = actionValue + table.learningRate*(reward+table.DecayRate*table.states[stateIdx][maxValue]-actionValue)
 }
-- 
2.43.0


From d3496b5439192ae112ede64daf043ae4ff670b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:21 +0000
Subject: [PATCH 24/83] fix: an aiNN cache dumps and restores what every other
 cache does

---
 SmartCache/sim/cache/aiNN.go | 58 ------------------------------------
 1 file changed, 58 deletions(-)

diff --git a/SmartCache/sim/cache/aiNN.go b/SmartCache/sim/cache/aiNN.go
index e8ad18b..cc5855f 100644
--- a/SmartCache/sim/cache/aiNN.go
+++ b/SmartCache/sim/cache/aiNN.go
@@ -2,13 +2,11 @@ package cache
 
 import (
 	"context"
-	"encoding/json"
 	"time"
 
 	"simulator/v2/cache/ai/featuremap"
 	"simulator/v2/cache/ai/neuralnet"
 	aiPb "simulator/v2/cache/aiService"
-	"simulator/v2/cache/files"
 	"simulator/v2/cache/queue"
 
 	"google.golang.org/grpc"
@@ -73,62 +71,6 @@ func (cache *AINN) Init(params InitParameters) interface{} {
 	return nil
 }
 
-// Dumps the AINN cache
-func (cache *AINN) Dumps(fileAndStats bool) [][]byte {
-	outData := make([][]byte, 0)
-	var newLine = []byte("\n")
-
-	if fileAndStats {
-		// ----- Files -----
-		cache.logger.Info("Dump cache files")
-		for file := range queue.Get(cache.files) {
-			dumpInfo, _ := json.Marshal(DumpInfo{Type: "FILES"})
-			dumpFile, _ := json.Marshal(file)
-			record, _ := json.Marshal(DumpRecord{
-				Info: string(dumpInfo),
-				Data: string(dumpFile),
-			})
-			record = append(record, newLine...)
-			outData = append(outData, record)
-		}
-		// ----- Stats -----
-		cache.logger.Info("Dump cache stats")
-		for _, stats := range cache.stats.Data {
-			dumpInfo, _ := json.Marshal(DumpInfo{Type: "STATS"})
-			dumpStats, _ := json.Marshal(stats)
-			record, _ := json.Marshal(DumpRecord{
-				Info: string(dumpInfo),
-				Data: string(dumpStats),
-			})
-			record = append(record, newLine...)
-			outData = append(outData, record)
-		}
-	}
-
-	return outData
-}
-
-// Loads the AINN cache
-func (cache *AINN) Loads(inputString [][]byte, _ ...interface{}) {
-	var curRecord DumpRecord
-	var curRecordInfo DumpInfo
-
-	for _, record := range inputString {
-		buffer := record[:len(record)-1]
-		json.Unmarshal(buffer, &curRecord)
-		json.Unmarshal([]byte(curRecord.Info), &curRecordInfo)
-		switch curRecordInfo.Type {
-		case "FILES":
-			var curFile files.Stats
-			json.Unmarshal([]byte(curRecord.Data), &curFile)
-			queue.Insert(cache.files, &curFile)
-			cache.size += curFile.Size
-		case "STATS":
-			json.Unmarshal([]byte(curRecord.Data), &cache.stats.Data)
-		}
-	}
-}
-
 // func (cache *AINN) getCategory(catKey string, value interface{}) []float64 {
 // 	var res []float64
 // 	curCategory := cache.aiFeatureMap[catKey]
-- 
2.43.0


From c5619c0b6ee4ad9ae880826d86515977d29127c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:21 +0000
Subject: [PATCH 25/83] fix: the predicted class of a column output is its
 largest entry, not always the first

---
 SmartCache/sim/cache/ai/neuralnet/neuralnet.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SmartCache/sim/cache/ai/neuralnet/neuralnet.go b/SmartCache/sim/cache/ai/neuralnet/neuralnet.go
index b1a6280..f9b3e53 100644
--- a/SmartCache/sim/cache/ai/neuralnet/neuralnet.go
+++ b/SmartCache/sim/cache/ai/neuralnet/neuralnet.go
@@ -207,11 +207,11 @@ func (model AIModel) Predict(input *mat.Dense) *mat.Dense {
 
 // GetPredictionArgMax returns the index of the maximum value in the Dense vector
 func GetPredictionArgMax(input *mat.Dense) int {
-	_, d1 := input.Dims()
+	d0, d1 := input.Dims()
 	maxIdx := 0
 	maxVal := input.At(0, 0)
-	for idx := 1; idx < d1; idx++ {
-		curVal := input.At(0, idx)
+	for idx := 1; idx < d0*d1; idx++ {
+		curVal := input.At(idx/d1, idx%d1)
 		if curVal > maxVal {
 			maxVal = curVal
 			maxIdx = idx
-- 
2.43.0


From 745baa83157757ee3c90f6fb4aeaedc6118cc5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:52 +0000
Subject: [PATCH 26/83] fix: the dataset to verify and the AI model are found
 relative to the configuration file like the other files

---
 SmartCache/sim/main.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/SmartCache/sim/main.go b/SmartCache/sim/main.go
index a6730be..6d635a4 100644
--- a/SmartCache/sim/main.go
+++ b/SmartCache/sim/main.go
@@ -366,9 +366,21 @@ func simCommand() *cobra.Command { //nolint:ignore,funlen
 			logger.Info("CONF_VAR", zap.String("aiFeatureMap", aiFeatureMap))
 
 			dataset2TestPath = viper.GetString("sim.ai.dataset2TestPath")
+			if dataset2TestPath != "" {
+				dataset2TestPath, errAbs = filepath.Abs(dataset2TestPath)
+				if errAbs != nil {
+					panic(errAbs)
+				}
+			}
 			logger.Info("CONF_VAR", zap.String("dataset2TestPath", dataset2TestPath))
 
 			aiModel = viper.GetString("sim.ai.model")
+			if aiModel != "" {
+				aiModel, errAbs = filepath.Abs(aiModel)
+				if errAbs != nil {
+					panic(errAbs)
+				}
+			}
 			logger.Info("CONF_VAR", zap.String("aiModel", aiModel))
 
 			aiRLType = viper.GetString("sim.ai.rl.type")
-- 
2.43.0


From 4d12383d2fd63591b705faf8bfd48fab6e464fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:56 +0000
Subject: [PATCH 27/83] fix: records of JSON data files can be read with
 current Python versions, json.loads has no encoding

---
 DataManager/collector/datafile/json.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DataManager/collector/datafile/json.py b/DataManager/collector/datafile/json.py
index f5b5bba..85ae895 100644
--- a/DataManager/collector/datafile/json.py
+++ b/DataManager/collector/datafile/json.py
@@ -234,7 +234,7 @@ class JSONDataFileReader(object):
         for idx, (json_obj, _) in enumerate(iter(self.__get_json, (None, -1)), cur_idx):
             if idx == stop - 1:
                 break
-            yield json.loads(json_obj, encoding="utf-8")
+            yield json.loads(json_obj)
 
     def __getitem__(self, idx):
         """Select an item or a group of item from the file.
@@ -259,7 +259,7 @@ class JSONDataFileReader(object):
             for cur_index in range(-idx):
                 obj, pos = self.__get_json_from_end()
                 if -cur_index - 1 == idx:
-                    return json.loads(obj, encoding="utf-8")
+                    return json.loads(obj)
             raise IndexError
 
         if isinstance(idx, slice):
@@ -290,7 +290,7 @@ class JSONDataFileReader(object):
                 self.__last_index = cur_idx
 
                 if cur_idx == target_idx:
-                    results.append(json.loads(last_obj, encoding="utf-8"))
+                    results.append(json.loads(last_obj))
                     break
 
                 cur_idx += 1
@@ -324,7 +324,7 @@ class JSONDataFileReader(object):
         """
         next_json, _ = self.__get_json()
         if next_json is not None:
-            return json.loads(next_json, encoding="utf-8")
+            return json.loads(next_json)
         else:
             raise StopIteration
 
-- 
2.43.0


From 07450816ef69c3cdc0ca41336d1a6a8b691644ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:56 +0000
Subject: [PATCH 28/83] fix: a string that is not a JSON is refused as such by
 the JSON data file writer

---
 DataManager/collector/datafile/json.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DataManager/collector/datafile/json.py b/DataManager/collector/datafile/json.py
index 85ae895..7815a63 100644
--- a/DataManager/collector/datafile/json.py
+++ b/DataManager/collector/datafile/json.py
@@ -87,7 +87,10 @@ class JSONDataFileWriter(object):
 
         """
         if isinstance(data, str):
-            return self.__write(self.__valid_json(data))
+            valid_json = self.__valid_json(data)
+            if not valid_json:
+                raise Exception("The string is not a valid JSON")
+            return self.__write(valid_json)
         elif isinstance(data, dict):
             return self.__write(json.dumps(data))
         elif isinstance(data, (list, GeneratorType)):
-- 
2.43.0


From 475eac460f0808c7d50cfdb8602fc43008f786ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:56 +0000
Subject: [PATCH 29/83] fix: negative indexes count from the end of a JSON data
 file

---
 DataManager/collector/datafile/json.py | 26 +++-----------------------
 1 file changed, 3 insertions(+), 23 deletions(-)

diff --git a/DataManager/collector/datafile/json.py b/DataManager/collector/datafile/json.py
index 7815a63..07c0102 100644
--- a/DataManager/collector/datafile/json.py
+++ b/DataManager/collector/datafile/json.py
@@ -178,24 +178,6 @@ class JSONDataFileReader(object):
             self.__len = num_lines
         return self.__len
 
-    def __get_json_from_end(self, step: int = 1024):
-        buffer = b''
-        index = -step - 1
-        cur_chars = b''
-        while cur_chars.rfind(b'\n') == -1:
-            self.__descriptor.seek(index, 2)
-            last_pos = self.__descriptor.tell()
-            cur_chars = self.__descriptor.read(step)
-            buffer = cur_chars + buffer
-            index -= step
-        if len(buffer) >= 2:
-            return (
-                buffer[cur_chars.rfind(b'\n')+1:], last_pos +
-                cur_chars.rfind(b'\n')
-            )
-        else:
-            return (None, -1)
-
     def __get_json(self):
         """Extract a json object string from the file.
 
@@ -259,11 +241,9 @@ class JSONDataFileReader(object):
             idx, (int, slice)), "Index Could be an integer or a slice"
 
         if isinstance(idx, int) and idx < 0:
-            for cur_index in range(-idx):
-                obj, pos = self.__get_json_from_end()
-                if -cur_index - 1 == idx:
-                    return json.loads(obj)
-            raise IndexError
+            idx += len(self)
+            if idx < 0:
+                raise IndexError
 
         if isinstance(idx, slice):
             to_extract = (elm for elm in gen_increasing_slice(idx))
-- 
2.43.0


From bbc63049ca7f1616aaf01a27d7db7cc31630ec03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:56 +0000
Subject: [PATCH 30/83] fix: compressed JSON data files can be opened to append

---
 DataManager/collector/datafile/json.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/DataManager/collector/datafile/json.py b/DataManager/collector/datafile/json.py
index 07c0102..44f658d 100644
--- a/DataManager/collector/datafile/json.py
+++ b/DataManager/collector/datafile/json.py
@@ -34,8 +34,7 @@ class JSONDataFileWriter(object):
             else:
                 self.__descriptor = get_or_create_descriptor(
                     self.__filename, "wb")
-
-        if append:
+        elif append:
             self.__descriptor.seek(0, 2)
 
         if data is not None:
-- 
2.43.0


From 1b285c38e5ade2d4ba6b1c63bfd56536d755aa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:56 +0000
Subject: [PATCH 31/83] fix: the last record of a JSON data file is read and
 counted also without a final newline

---
 DataManager/collector/datafile/json.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/DataManager/collector/datafile/json.py b/DataManager/collector/datafile/json.py
index 44f658d..9496d35 100644
--- a/DataManager/collector/datafile/json.py
+++ b/DataManager/collector/datafile/json.py
@@ -173,8 +173,9 @@ class JSONDataFileReader(object):
     def __len__(self):
         if not self.__len:
             self.__descriptor.seek(0, 0)
-            num_lines = self.__descriptor.read().decode("utf-8").count('\n')
-            self.__len = num_lines
+            self.__len = sum(
+                1 for line in self.__descriptor if line.strip()
+            )
         return self.__len
 
     def __get_json(self):
@@ -193,6 +194,9 @@ class JSONDataFileReader(object):
             if cur_char == b'\n' and len(buffer) >= 2:
                 return buffer, start
 
+        if buffer.strip():
+            return buffer, start
+
         return (None, -1)
 
     def start_from(self, index: int, stop: int = -1):
-- 
2.43.0


From 5ee48aa363a5dbe3d33ac79700c7f77c4c2cf838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:56 +0000
Subject: [PATCH 32/83] fix: a JSON data file can be opened from memory

---
 DataManager/collector/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataManager/collector/api.py b/DataManager/collector/api.py
index 6cbdd48..1b0ef1d 100644
--- a/DataManager/collector/api.py
+++ b/DataManager/collector/api.py
@@ -43,7 +43,7 @@ class DataFile(object):
             if tmp.find("avro.schema") != -1:
                 return AvroDataFileReader(source)
             else:
-                return JSONDataFileReader(source)
+                return JSONDataFileReader(descriptor=source)
         elif isinstance(source, AvroDataFileWriter):
             tmp = BytesIO(source.raw_data)
             return AvroDataFileReader(tmp)
-- 
2.43.0


From c421a1e7eeed9a53ca307a72463054e549c64ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:27 +0000
Subject: [PATCH 33/83] fix: a stage processes also the batches that arrive
 while all its processes are busy

---
 DataManager/collector/dataset/stage.py | 30 ++++++++++++--------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/DataManager/collector/dataset/stage.py b/DataManager/collector/dataset/stage.py
index f0348c3..ad56df2 100644
--- a/DataManager/collector/dataset/stage.py
+++ b/DataManager/collector/dataset/stage.py
@@ -84,22 +84,6 @@ class Stage(BaseSpark):
             output_queue = Queue()
             with yaspin(text="[STAGE][{}]".format(self.name)) as spinner:
                 for cur_input in input_:
-                    if len(tasks) < num_process:
-                        new_process = Process(
-                            target=self.process,
-                            args=(cur_input, output_queue)
-                        )
-                        tasks.append(new_process)
-                        new_process.start()
-                        spinner.write(
-                            "[STAGE][{}][TASK ADDED]".format(self.name))
-                        spinner.write("[STAGE][{}][{} task{} running]".format(
-                            self.name,
-                            len(tasks),
-                            's' if len(tasks) > 1 else ''
-                        ))
-                        continue
-
                     while len(tasks) == num_process:
                         for task in tasks:
                             spinner.text = "[STAGE][{}][{} task{} running]".format(
@@ -116,6 +100,20 @@ class Stage(BaseSpark):
                                 len(tasks),
                                 's' if len(tasks) > 1 else ''
                             )
+
+                    new_process = Process(
+                        target=self.process,
+                        args=(cur_input, output_queue)
+                    )
+                    tasks.append(new_process)
+                    new_process.start()
+                    spinner.write(
+                        "[STAGE][{}][TASK ADDED]".format(self.name))
+                    spinner.write("[STAGE][{}][{} task{} running]".format(
+                        self.name,
+                        len(tasks),
+                        's' if len(tasks) > 1 else ''
+                    ))
                 else:
                     while len(tasks) > 0:
                         for task in tasks:
-- 
2.43.0


From 869c8d08331f28f226a82a69b3aba1f5c0ce1a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:27 +0000
Subject: [PATCH 34/83] fix: appending no record to an avro data file changes
 nothing instead of failing

---
 DataManager/collector/datafile/avro.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DataManager/collector/datafile/avro.py b/DataManager/collector/datafile/avro.py
index 93ba98f..0cd1b19 100644
--- a/DataManager/collector/datafile/avro.py
+++ b/DataManager/collector/datafile/avro.py
@@ -61,6 +61,8 @@ class AvroDataFileWriter(object):
         if isinstance(data, dict):
             self.__write([data])
         elif isinstance(data, list):
+            if not data:
+                return self
             if all(isinstance(elm, dict) for elm in data):
                 self.__write(data)
             else:
-- 
2.43.0


From feb9ffa86698d835f4dbdceb12f6c53021ca2a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:27 +0000
Subject: [PATCH 35/83] fix: the test0 and featured stages pass records on as
 dictionaries, the only form a stage can store

---
 DataManager/collector/dataset/stage.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DataManager/collector/dataset/stage.py b/DataManager/collector/dataset/stage.py
index ad56df2..56064d2 100644
--- a/DataManager/collector/dataset/stage.py
+++ b/DataManager/collector/dataset/stage.py
@@ -172,9 +172,9 @@ class CMSRecordTest0Stage(Stage):
 
         if queue:
             for record in tmp.values():
-                queue.put(record.dumps())
+                queue.put(record.to_dict())
         else:
-            return [elm.dumps() for elm in tmp.values()]
+            return [elm.to_dict() for elm in tmp.values()]
 
     def pre_output(self, output):
         tmp = {}
@@ -218,7 +218,7 @@ class CMSFeaturedStage(Stage):
         for record in records:
             new_record = CMSDataPopularity(record['features'])
             if new_record:
-                tmp.append(new_record.dumps())
+                tmp.append(new_record.to_dict())
 
             # Limit processing for test
             # if len(tmp) >= 1000:
-- 
2.43.0


From cd7fbfcc0b9540e616bf7c932750efdd0721ddd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:27 +0000
Subject: [PATCH 36/83] fix: a valid data popularity record gets its id instead
 of failing

---
 DataManager/collector/datafeatures/extractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataManager/collector/datafeatures/extractor.py b/DataManager/collector/datafeatures/extractor.py
index f19f088..38f5999 100644
--- a/DataManager/collector/datafeatures/extractor.py
+++ b/DataManager/collector/datafeatures/extractor.py
@@ -143,7 +143,7 @@ class CMSDataPopularity(FeatureData):
                     [fun(self.feature[name]) for name, fun in self.__filters]
                 )
                 if self.__valid:
-                    self.__gen_id()
+                    self.__id = self.record_id
             except ValueError as err:
                 print(
                     "Cannot extract features from '{}'".format(cur_file))
-- 
2.43.0


From dd5e20e3cb55d46af186cd692acb309b913e1f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:54 +0000
Subject: [PATCH 37/83] fix: the evaluator's LRU cache evicts the least
 recently used file, not the most recently used

---
 SmartCache/ai/models/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SmartCache/ai/models/evaluator.py b/SmartCache/ai/models/evaluator.py
index a22f89c..d28c340 100644
--- a/SmartCache/ai/models/evaluator.py
+++ b/SmartCache/ai/models/evaluator.py
@@ -107,7 +107,7 @@ class LRUCache(SimpleCache):
         elif len(self._cache) == self._max_size:
             self._miss += 1
             if insert:
-                idx = np.argmin(self._counters)
+                idx = np.argmax(self._counters)
                 self._cache.pop(idx)
                 self._cache.insert(idx, file_)
                 self._counters[idx] = 0
-- 
2.43.0


From 5b4cf1c424114d4f2c1de459e0a0704755bd4a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:54 +0000
Subject: [PATCH 38/83] fix: the evaluator's FIFO cache evicts only to make
 room for a new file

---
 SmartCache/ai/models/evaluator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SmartCache/ai/models/evaluator.py b/SmartCache/ai/models/evaluator.py
index d28c340..0483681 100644
--- a/SmartCache/ai/models/evaluator.py
+++ b/SmartCache/ai/models/evaluator.py
@@ -80,7 +80,8 @@ class FIFOCache(SimpleCache):
         self._max_size = max_size
 
     def update(self, file_, insert: bool = True):
-        if len(self._cache) == self._max_size:
+        if insert and not self.check(file_) and \
+                len(self._cache) == self._max_size:
             self._cache.pop(0)
         return super(FIFOCache, self).update(file_, insert)
 
-- 
2.43.0


From 9578b1b826f9a3ae3a585b93f59a9e6bde929a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:54 +0000
Subject: [PATCH 39/83] fix: the evaluator's LRU cache restores its counters
 also from a state given by position

---
 SmartCache/ai/models/evaluator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/SmartCache/ai/models/evaluator.py b/SmartCache/ai/models/evaluator.py
index 0483681..16a854a 100644
--- a/SmartCache/ai/models/evaluator.py
+++ b/SmartCache/ai/models/evaluator.py
@@ -93,9 +93,10 @@ class LRUCache(SimpleCache):
         self._max_size = max_size
         self._counters = np.zeros(self._max_size)
 
-        if 'init_state' in kwargs:
-            self._max_size = kwargs['init_state']['max_size']
-            self._counters = np.array(kwargs['init_state']['counters'])
+        init_state = kwargs.get('init_state', args[0] if args else {})
+        if init_state:
+            self._max_size = init_state['max_size']
+            self._counters = np.array(init_state['counters'])
 
     def update(self, file_, insert: bool = True):
         self._counters += 1
-- 
2.43.0


From 82abc6ddcc5ca59a46f4dd134b11dec0494faf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:54 +0000
Subject: [PATCH 40/83] fix: the Python LRU skips a file larger than the cache
 instead of failing after emptying itself

---
 SmartCache/pySim/cache.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SmartCache/pySim/cache.py b/SmartCache/pySim/cache.py
index f7b5622..82cdaef 100644
--- a/SmartCache/pySim/cache.py
+++ b/SmartCache/pySim/cache.py
@@ -94,6 +94,8 @@ class LRU(object):
 
     def update_policy(self, filename, file_stats, hit: bool) -> bool:
         if not hit:
+            if file_stats.size > self._max_size:
+                return False
             if self._size + file_stats.size <= self._max_size:
                 self._files[filename] = file_stats
                 self._queue.append(filename)
-- 
2.43.0


From 5137fe0cf6bf4d414d55e0cc7f49e1c827b5804a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:54 +0000
Subject: [PATCH 41/83] fix: the days of a window end also when the step does
 not divide its size

---
 DataManager/collector/dataset/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataManager/collector/dataset/utils.py b/DataManager/collector/dataset/utils.py
index 856a881..4a4fd2e 100644
--- a/DataManager/collector/dataset/utils.py
+++ b/DataManager/collector/dataset/utils.py
@@ -135,7 +135,7 @@ def gen_window_dates(year: int, month: int, day: int, window_size: int, step: in
     else:
         start_date = date(year, month, day) + window_size
     end_date = start_date + window_size
-    while start_date != end_date:
+    while start_date < end_date:
         yield (start_date.year, start_date.month, start_date.day)
         start_date += window_step
 
-- 
2.43.0


From 3c2a1f9700709628861aeb8def5d2b8c361e7c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:54 +0000
Subject: [PATCH 42/83] fix: the command line agent imports the data file
 interface that exists

---
 DataManager/agent/cli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DataManager/agent/cli.py b/DataManager/agent/cli.py
index 0668736..b9288ac 100644
--- a/DataManager/agent/cli.py
+++ b/DataManager/agent/cli.py
@@ -3,7 +3,7 @@ from datetime import timedelta
 from sys import exit
 from time import time
 
-from ..collector.interface import DataFileInterface
+from ..collector.api import DataFile
 from .api import ElasticSearchHttp
 
 
@@ -49,7 +49,7 @@ def cli_main():
 
     if args.command == "get":
         if args.type == "file":
-            collector = DataFileInterface(args.source)
+            collector = DataFile(args.source)
             try:
                 index = int(args.index)
             except ValueError as err:
@@ -61,7 +61,7 @@ def cli_main():
         BULK_SIZE = args.bulk
 
         if args.source_type == "file":
-            source = DataFileInterface(args.source)
+            source = DataFile(args.source)
         if args.dest_type == "elasticsearchhttp":
             dest = ElasticSearchHttp(args.dest, args.auth)
 
-- 
2.43.0


From 43a84cee42bc9517fd51cfea983faaec818bbf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:54 +0000
Subject: [PATCH 43/83] fix: a bulk insertion sends also the record that
 arrives when the bucket is full

---
 DataManager/agent/cli.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/DataManager/agent/cli.py b/DataManager/agent/cli.py
index b9288ac..7117891 100644
--- a/DataManager/agent/cli.py
+++ b/DataManager/agent/cli.py
@@ -103,9 +103,8 @@ def cli_main():
                     print("[COMMAND][PUT][INSERT][Element {}][DONE in {:0.5f}s][Elapsed time: {:0>8}s]".format(
                         idx, time()-start,  str(timedelta(seconds=time()-command_start))), end='\r')
                 else:
-                    if len(bucket) < BULK_SIZE:
-                        bucket.append(data)
-                    else:
+                    bucket.append(data)
+                    if len(bucket) == BULK_SIZE:
                         tot_elm_done = put_bucket(dest, bucket, tot_elm_done)
                         bucket = []
             else:
-- 
2.43.0


From 50161e5d24e8dbe30d78985a05330482d963e59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:18 +0000
Subject: [PATCH 44/83] fix: list() of a data file gives its records, asking
 for the length no longer loses the position

---
 DataManager/collector/datafile/avro.py | 3 +++
 DataManager/collector/datafile/json.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/DataManager/collector/datafile/avro.py b/DataManager/collector/datafile/avro.py
index 0cd1b19..fd5d477 100644
--- a/DataManager/collector/datafile/avro.py
+++ b/DataManager/collector/datafile/avro.py
@@ -125,11 +125,14 @@ class AvroDataFileReader(object):
     def __len__(self):
         if not self.__len:
             counter = 0
+            # list() asks for the length after it started the iteration
+            position = self.__descriptor.tell()
             self.__descriptor.seek(0, 0)
             print("[Check avro lenght...]")
             for _ in fast_reader(self.__descriptor):
                 counter += 1
             self.__len = counter
+            self.__descriptor.seek(position, 0)
         return self.__len
 
     @property
diff --git a/DataManager/collector/datafile/json.py b/DataManager/collector/datafile/json.py
index 9496d35..8097066 100644
--- a/DataManager/collector/datafile/json.py
+++ b/DataManager/collector/datafile/json.py
@@ -172,10 +172,13 @@ class JSONDataFileReader(object):
 
     def __len__(self):
         if not self.__len:
+            # list() asks for the length after it started the iteration
+            position = self.__descriptor.tell()
             self.__descriptor.seek(0, 0)
             self.__len = sum(
                 1 for line in self.__descriptor if line.strip()
             )
+            self.__descriptor.seek(position, 0)
         return self.__len
 
     def __get_json(self):
-- 
2.43.0


From e38639fa087bca8f2b3b661af185ebfb81282d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:18 +0000
Subject: [PATCH 45/83] fix: avro data files keep the precision of Python
 numbers, 64-bit types instead of 32-bit ones

---
 DataManager/collector/datafile/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DataManager/collector/datafile/utils.py b/DataManager/collector/datafile/utils.py
index 1927b2b..c20d507 100644
--- a/DataManager/collector/datafile/utils.py
+++ b/DataManager/collector/datafile/utils.py
@@ -95,9 +95,9 @@ class AvroObjectTranslator(object):
         if isinstance(value, bool):
             return "boolean"
         elif isinstance(value, int):
-            return "int"
+            return "long"
         elif isinstance(value, float):
-            return "float"
+            return "double"
         elif isinstance(value, str):
             return "string"
         elif isinstance(value, bytes):
-- 
2.43.0


From 78a9db2ea62bd13bcf728c2e387f47e248fc999b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:18 +0000
Subject: [PATCH 46/83] fix: the second argument of the JSON data file writer
 is the initial data again, as its users and tests pass it

---
 DataManager/collector/datafile/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataManager/collector/datafile/json.py b/DataManager/collector/datafile/json.py
index 8097066..6aa6a8f 100644
--- a/DataManager/collector/datafile/json.py
+++ b/DataManager/collector/datafile/json.py
@@ -12,7 +12,7 @@ class JSONDataFileWriter(object):
 
     """Write json.gz file."""
 
-    def __init__(self, filename: str = None, descriptor: 'IOBase' = None, data=None, append: bool = False):
+    def __init__(self, filename: str = None, data=None, descriptor: 'IOBase' = None, append: bool = False):
         """Init function of data writer for json.gz files.
 
         Args:
-- 
2.43.0


From cc342135e29a4b8693e090d084230f0a96b61ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:57 +0000
Subject: [PATCH 47/83] fix: a httpfs resource gives every file of a day, once,
 not only the last one listed

---
 DataManager/collector/dataset/resource.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/DataManager/collector/dataset/resource.py b/DataManager/collector/dataset/resource.py
index 27497ef..dec6ea9 100644
--- a/DataManager/collector/dataset/resource.py
+++ b/DataManager/collector/dataset/resource.py
@@ -126,13 +126,13 @@ class CMSResourceManager(Resource):
                         )
                 ):
                     cur_file = self._httpfs.open(full_path)
-                    collector = DataFile(cur_file)
+                    yield DataFile(cur_file)
             elif self._hdfs_base_path:
                 sc = self.spark_context
                 binary_file = sc.binaryFiles("{}/year={:4d}/month={:d}/day={:d}/part-m-00000.avro".format(
                     self._hdfs_base_path, year, month, day)
                 ).collect()
-                collector = DataFile(binary_file[0])
+                yield DataFile(binary_file[0])
             elif self._local_folder:
                 cur_file_path = path.join(
                     path.abspath(self._local_folder),
@@ -141,10 +141,9 @@ class CMSResourceManager(Resource):
                     "day={}".format(day),
                     "part-m-00000.avro"
                 )
-                collector = DataFile(cur_file_path)
+                yield DataFile(cur_file_path)
             else:
                 raise Exception("No methods to retrieve data...")
-            yield collector
 
     def set(self, data: 'DataFile', stage_name: str = '', out_dir: str = 'cache'):
         out_name = "dataset_y{}-m{}-d{}_ws{}_stage-{}.json.gz".format(
-- 
2.43.0


From 585e153dd6b18f21398450bb5da1e93435b6ed81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:57 +0000
Subject: [PATCH 48/83] fix: a resource saves a dataset as the compressed JSON
 its name says

---
 DataManager/collector/dataset/resource.py | 65 +++++++++++------------
 1 file changed, 32 insertions(+), 33 deletions(-)

diff --git a/DataManager/collector/dataset/resource.py b/DataManager/collector/dataset/resource.py
index dec6ea9..45f791f 100644
--- a/DataManager/collector/dataset/resource.py
+++ b/DataManager/collector/dataset/resource.py
@@ -1,6 +1,7 @@
 import os
 from io import BytesIO
 from os import makedirs, path
+from shutil import copyfile
 from tempfile import NamedTemporaryFile
 
 from tqdm import tqdm
@@ -52,18 +53,17 @@ class CMSDatasetResourceManager(Resource):
         return self.gen_batches(DataFile(self.__dataset_path))
 
     def set(self, data: 'DataFile', out_name: str, out_dir: str = 'cache'):
-        with NamedTemporaryFile() as tmp_file:
-            with JSONDataFileWriter(descriptor=tmp_file) as tmp_data:
+        with NamedTemporaryFile(suffix=".json.gz") as tmp_file:
+            with JSONDataFileWriter(tmp_file.name) as tmp_data:
                 for record in tqdm(data, desc="[Prepare tempfile]"):
                     tmp_data.append(record)
 
-                with yaspin(text="[Save Dataset]") as spinner:
-                    cur_base_path = out_dir
-                    makedirs(cur_base_path, exist_ok=True)
-                    with open(path.join(cur_base_path, out_name), 'w') as out_data:
-                        out_data.write(tmp_data.raw_data)
+            with yaspin(text="[Save Dataset]") as spinner:
+                cur_base_path = out_dir
+                makedirs(cur_base_path, exist_ok=True)
+                copyfile(tmp_file.name, path.join(cur_base_path, out_name))
 
-                    spinner.write("[Dataset saved]")
+                spinner.write("[Dataset saved]")
 
 
 class CMSResourceManager(Resource):
@@ -154,31 +154,30 @@ class CMSResourceManager(Resource):
             stage_name
         )
 
-        with NamedTemporaryFile() as tmp_file:
-            with JSONDataFileWriter(descriptor=tmp_file) as tmp_data:
+        with NamedTemporaryFile(suffix=".json.gz") as tmp_file:
+            with JSONDataFileWriter(tmp_file.name) as tmp_data:
                 for record in tqdm(data, desc="[Prepare tempfile]"):
                     tmp_data.append(record)
 
-                with yaspin(text="[Save Dataset]") as spinner:
-                    if self.type == 'local':
-                        cur_base_path = path.join(
-                            self._local_folder,
-                            out_dir
-                        )
-                        makedirs(cur_base_path, exist_ok=True)
-                        with open(path.join(cur_base_path, out_name), 'w') as out_data:
-                            out_data.write(tmp_data.raw_data)
-
-                    elif self.type == 'httpfs':
-                        self._httpfs.create(
-                            "/{}".format(path.join(out_dir, out_name)),
-                            tmp_file.name,
-                            overwrite=True
-                        )
-                    else:
-                        raise Exception(
-                            "Save to '{}' not implemented...".format(
-                                self.type)
-                        )
-
-                    spinner.write("[Dataset saved]")
+            with yaspin(text="[Save Dataset]") as spinner:
+                if self.type == 'local':
+                    cur_base_path = path.join(
+                        self._local_folder,
+                        out_dir
+                    )
+                    makedirs(cur_base_path, exist_ok=True)
+                    copyfile(tmp_file.name, path.join(cur_base_path, out_name))
+
+                elif self.type == 'httpfs':
+                    self._httpfs.create(
+                        "/{}".format(path.join(out_dir, out_name)),
+                        tmp_file.name,
+                        overwrite=True
+                    )
+                else:
+                    raise Exception(
+                        "Save to '{}' not implemented...".format(
+                            self.type)
+                    )
+
+                spinner.write("[Dataset saved]")
-- 
2.43.0


From 1b6c8475e0e52d6acd6ca86a3f0ae00880545ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:03 +0000
Subject: [PATCH 49/83] fix: the train set honours one_hot_labels

---
 DataManager/collector/dataset/reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DataManager/collector/dataset/reader.py b/DataManager/collector/dataset/reader.py
index b3a32a8..a37f202 100644
--- a/DataManager/collector/dataset/reader.py
+++ b/DataManager/collector/dataset/reader.py
@@ -348,7 +348,7 @@ class CMSDatasetTest0Reader(object):
             labels = []
             for record in tqdm(self._collector, desc="[Generate train set]"):
                 features, class_ = self.__translate(
-                    record, normalized, one_hot)
+                    record, normalized, one_hot, one_hot_labels)
                 features_list.append(features)
                 labels.append(class_)
             yield (np.array(features_list), np.array(labels), None)
@@ -363,7 +363,7 @@ class CMSDatasetTest0Reader(object):
 
             for record in tqdm(self._collector, desc="[Generate chunks]"):
                 features, class_ = self.__translate(
-                    record, normalized, one_hot)
+                    record, normalized, one_hot, one_hot_labels)
                 tmp_features.append(features)
                 tmp_labels.append(class_)
                 if len(tmp_features) == chunk_size:
-- 
2.43.0


From a1a2dce01e0e69ed4be8bc9fbcd17f8a9de30af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:14 +0000
Subject: [PATCH 50/83] fix: a support table indexed again forgets the
 conversions of its previous indexes

---
 DataManager/collector/dataset/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/DataManager/collector/dataset/utils.py b/DataManager/collector/dataset/utils.py
index 4a4fd2e..d5f5794 100644
--- a/DataManager/collector/dataset/utils.py
+++ b/DataManager/collector/dataset/utils.py
@@ -354,6 +354,11 @@ class SupportTable(object):
                         )
                     )
                 )
+        # Conversions made with the previous indexes are not valid anymore
+        self.__sorted_keys = {}
+        self.__sizes = {}
+        self.get_value.cache_clear()
+        self.get_close_value.cache_clear()
         return self
 
     def to_dict(self) -> dict:
-- 
2.43.0


From 5d98f9c4240339175d95a4984e32acebf24e6a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:50 +0000
Subject: [PATCH 51/83] fix: the wrap CPU of a missed first request is not
 served by the cache

---
 SmartCache/ai/models/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SmartCache/ai/models/evaluator.py b/SmartCache/ai/models/evaluator.py
index 16a854a..a5c742a 100644
--- a/SmartCache/ai/models/evaluator.py
+++ b/SmartCache/ai/models/evaluator.py
@@ -168,7 +168,7 @@ class Evaluator(object):
     def add_wrap_cpu(self, cache: str, amount: float, hit: bool):
         cur_cache = self._wrap_cpu[cache]
         if len(cur_cache) == 0:
-            cur_cache.append(amount)
+            cur_cache.append(amount if hit else 0.)
         else:
             if hit:
                 cur_cache.append(amount + cur_cache[-1])
-- 
2.43.0


From 6bc3a927159cd58236388af641ff88d4744e89c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:20 +0000
Subject: [PATCH 52/83] fix: a record that gets another feature gets another id

---
 DataManager/collector/datafeatures/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DataManager/collector/datafeatures/utils.py b/DataManager/collector/datafeatures/utils.py
index 568a924..4788268 100644
--- a/DataManager/collector/datafeatures/utils.py
+++ b/DataManager/collector/datafeatures/utils.py
@@ -15,6 +15,7 @@ class FeatureData(object):
     def add_feature(self, name, value):
         """Insert a feature."""
         self._features[name] = value
+        self._id = None
 
     def __getstate__(self):
         """Make object serializable by pickle.
-- 
2.43.0


From a9de5bb090bc82b25fa2075ad56e0ce9e1bedf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:54 +0000
Subject: [PATCH 53/83] fix: a password with a colon reaches the document store
 whole

---
 DataManager/agent/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataManager/agent/api.py b/DataManager/agent/api.py
index b37c912..4735651 100644
--- a/DataManager/agent/api.py
+++ b/DataManager/agent/api.py
@@ -279,7 +279,7 @@ class ElasticSearchHttp(object):
         self.__url = url
         if self.__url[-1] != "/":
             self.__url += "/"
-        self.__auth = tuple(auth.split(":")) if auth != "" else None
+        self.__auth = tuple(auth.split(":", 1)) if auth != "" else None
 
     def __enter__(self):
         return self
-- 
2.43.0


From 3230af4a4cc5da201e701d803e309e5b2acb500c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:54 +0000
Subject: [PATCH 54/83] fix: every bucketed column keeps its buckets and its
 open end

---
 DataManager/collector/dataset/reader.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/DataManager/collector/dataset/reader.py b/DataManager/collector/dataset/reader.py
index a37f202..1f20948 100644
--- a/DataManager/collector/dataset/reader.py
+++ b/DataManager/collector/dataset/reader.py
@@ -84,11 +84,12 @@ class SimulatorDatasetReader(object):
                 cur_map['type'] = "bool"
 
             if buckets:
+                cur_map['buckets'] = True
                 if buckets[-1] == "...":
-                    cur_map['buckets'] = True
                     cur_map['bucket_open_right'] = True
-                    buckets = buckets[:-1]
-                cur_map['keys'] = buckets
+                    cur_map['keys'] = buckets[:-1]
+                else:
+                    cur_map['keys'] = buckets
             else:
                 cur_map['keys'] = list(
                     set(self._df[column].astype(map_type).to_list())
-- 
2.43.0


From 4e61418c49f4aef3352aa91c2fde158166b3a8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:54 +0000
Subject: [PATCH 55/83] fix: the converter package can be imported

---
 Probe/probe/converter/inspect.py | 3 +--
 Probe/probe/utils.py             | 4 ++++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/Probe/probe/converter/inspect.py b/Probe/probe/converter/inspect.py
index cfa21fe..9abe74b 100644
--- a/Probe/probe/converter/inspect.py
+++ b/Probe/probe/converter/inspect.py
@@ -2,8 +2,7 @@ import argparse
 import pickle
 from os import path
 
-from ..utils import STATUS_ARROW, STATUS_WARNING
-from .utils import str2bool
+from ..utils import STATUS_ARROW, STATUS_WARNING, str2bool
 
 
 def main():
diff --git a/Probe/probe/utils.py b/Probe/probe/utils.py
index 29866ae..ab167c8 100644
--- a/Probe/probe/utils.py
+++ b/Probe/probe/utils.py
@@ -17,6 +17,10 @@ def STATUS_OK(string):
     return f"{Style.BRIGHT + Fore.GREEN}{string}{Style.RESET_ALL}"
 
 
+def str2bool(v):
+    return v.lower() in ("yes", "true", "t", "1")
+
+
 def sort_by_date(df: "pd.DataFrame", column_name: str = "reqDay") -> "pd.DataFrame":
     """Sort the dataframe by date.
 
-- 
2.43.0


From 44277d2f38f4d3d79f8fa50b0736cb614cdf5596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:54 +0000
Subject: [PATCH 56/83] fix: a categorical value with dots can be queried

---
 Probe/probe/converter/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Probe/probe/converter/utils.py b/Probe/probe/converter/utils.py
index 32ca23c..7e1129b 100644
--- a/Probe/probe/converter/utils.py
+++ b/Probe/probe/converter/utils.py
@@ -147,7 +147,7 @@ class CategoryContainer:
                 colorful_json = make_colored_json(json_output)
                 return colorful_json
             elif subQuery == "valueOf":
-                category, key = category.split(".")
+                category, key = category.split(".", 1)
                 json_output = json.dumps(
                     {category: {key: self._data[category][key]}},
                     indent=2,
-- 
2.43.0


From ae32f86267a2a5b25a17669dd4da9b167c974015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:54 +0000
Subject: [PATCH 57/83] fix: csv data not asked for as a generator comes as one
 table

---
 Probe/probe/loaders.py | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/Probe/probe/loaders.py b/Probe/probe/loaders.py
index 705278e..9fea714 100644
--- a/Probe/probe/loaders.py
+++ b/Probe/probe/loaders.py
@@ -111,8 +111,27 @@ def csv_data(
     :rtype: pandas.DataFrame
     """
     assert concat != generate, "You cannot concat and generate data..."
+    data_frames = _iter_csv_data(
+        input_path, region_filter, file_type_filter, month_filter
+    )
+    if generate:
+        return data_frames
+    if not path.isdir(input_path):
+        return next(data_frames)
+    data_frames = list(data_frames)
+    if data_frames:
+        print(f"{STATUS_ARROW}Concat dataframes...")
+        return pd.concat(data_frames)
+    return pd.DataFrame()
+
+
+def _iter_csv_data(
+    input_path: str,
+    region_filter: str = None,
+    file_type_filter: str = None,
+    month_filter: int = -1,
+):
     if path.isdir(input_path):
-        data_frames = []
         files = [file_ for file_ in os.listdir(input_path) if file_.find("csv") != -1]
         for filename in tqdm(
             sorted(files), desc=f"{STATUS_ARROW}Load folder {input_path}"
@@ -120,21 +139,9 @@ def csv_data(
             if month_filter != -1:
                 if _get_month(filename) != month_filter:
                     continue
-            cur_dataframe = _load_csv_file(
+            yield _load_csv_file(
                 path.join(input_path, filename), region_filter, file_type_filter
             )
-            if generate:
-                yield cur_dataframe
-            else:
-                data_frames.append(cur_dataframe)
-        else:
-            if data_frames:
-                if concat:
-                    print(f"{STATUS_ARROW}Concat dataframes...")
-                    return pd.concat(data_frames)
-                return data_frames
-            else:
-                pd.DataFrame()
     else:
         print(f"{STATUS_ARROW}Load file {input_path}")
-        return _load_csv_file(input_path, region_filter, file_type_filter)
+        yield _load_csv_file(input_path, region_filter, file_type_filter)
-- 
2.43.0


From 5e52598fbb2eb40e8e92b423f43b080703b9af2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:54 +0000
Subject: [PATCH 58/83] fix: the simulation report not asked for as a generator
 comes as a dictionary

---
 Probe/probe/results/data.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/Probe/probe/results/data.py b/Probe/probe/results/data.py
index 6dc2069..683e813 100644
--- a/Probe/probe/results/data.py
+++ b/Probe/probe/results/data.py
@@ -295,23 +295,24 @@ def measure_hit_over_miss(df: "pd.DataFrame") -> "pd.Series":
 def parse_simulation_report(
     files2plot: list, prefix: str, generator: bool = False, target: str = "AFTERDELETE"
 ) -> dict:
+    if generator:
+        return _gen_simulation_report(files2plot, prefix, target)
+
     del_evaluators = {}
 
     for file_, _, sim_log in tqdm(files2plot, desc="Parse log", position=1):
         name = file_.replace(prefix, "").replace(f"/{SIM_RESULT_FILENAME}", "")
+        del_evaluators[name] = list(parse_sim_log(sim_log, target))
 
-        curEvents = []
+    return del_evaluators
 
-        for del_evaluator in parse_sim_log(sim_log, target):
-            if generator:
-                yield name, del_evaluator
-            else:
-                curEvents.append(del_evaluator)
 
-        if not generator:
-            del_evaluators[name] = curEvents
+def _gen_simulation_report(files2plot: list, prefix: str, target: str):
+    for file_, _, sim_log in tqdm(files2plot, desc="Parse log", position=1):
+        name = file_.replace(prefix, "").replace(f"/{SIM_RESULT_FILENAME}", "")
 
-    return del_evaluators
+        for del_evaluator in parse_sim_log(sim_log, target):
+            yield name, del_evaluator
 
 
 def get_name_no_feature(name: str):
-- 
2.43.0


From 52a4aeb545df6ebaa559210fbcdcb8b088252421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:54 +0000
Subject: [PATCH 59/83] fix: the results table has as many rows as asked for

---
 Probe/probe/results/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Probe/probe/results/data.py b/Probe/probe/results/data.py
index 683e813..022bbd8 100644
--- a/Probe/probe/results/data.py
+++ b/Probe/probe/results/data.py
@@ -422,7 +422,7 @@ def make_table(
 
     df = df.round(6)
     if top_n != 0:
-        df = df.iloc[:10]
+        df = df.iloc[:top_n]
 
     source_files = df.source.to_list()
     del df["source"]
-- 
2.43.0


From ee195b3079afc66a3ed08c606df7d43748150a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:54 +0000
Subject: [PATCH 60/83] fix: the deletion log counts the deleted files and
 their sizes only

---
 Probe/probe/results/utils.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/Probe/probe/results/utils.py b/Probe/probe/results/utils.py
index 7bab61f..02fbe4d 100644
--- a/Probe/probe/results/utils.py
+++ b/Probe/probe/results/utils.py
@@ -60,7 +60,7 @@ class LogDeleteEvaluator(object):
     @property
     def scatterAfter(self):
         return px.scatter_3d(
-            self.after[self.after.size != -1.0],
+            self.after[self.after["size"] != -1.0],
             x="num req",
             y="size",
             z="filename",
@@ -81,14 +81,19 @@ class LogDeleteEvaluator(object):
     def histActionDeltaT(self):
         return px.histogram(self.actions, x="delta t")
 
+    @property
+    def _deleted(self):
+        # the actions are also those on the files that were kept
+        return self.actions[self.actions["action or event"] == "DELETE"]
+
     def _get_num_deleted_files(self):
-        return len(set(self.actions.filename))
+        return len(set(self._deleted.filename))
 
     def _get_total_size_deleted_files(self):
-        return self.actions.size.sum()
+        return self._deleted["size"].sum()
 
     def _get_num_deleted_miss(self):
-        files = set(self.after.filename) & set(self.actions.filename)
+        files = set(self.after.filename) & set(self._deleted.filename)
         tot = 0
         if len(files) > 0:
             counts = self.after.filename[
@@ -106,10 +111,10 @@ class LogDeleteEvaluator(object):
         self.actions.loc[selectRows, "delta t"] = new_max * 2.0
 
         cur_max = self.after["delta t"].max()
-        selectRows = (self.after["delta t"] == cur_max) & (self.after.size != -1.0)
+        selectRows = (self.after["delta t"] == cur_max) & (self.after["size"] != -1.0)
         self.after.loc[selectRows, "delta t"] = -1.0
         new_max = self.after["delta t"].max()
-        selectRows = (self.after["delta t"] == -1.0) & (self.after.size != -1.0)
+        selectRows = (self.after["delta t"] == -1.0) & (self.after["size"] != -1.0)
         self.after.loc[selectRows, "delta t"] = new_max * 2.0
 
 
@@ -143,8 +148,9 @@ def parse_sim_log(log_df: "pd.DataFrame", target: str = "AFTERDELETE"):
                     state = "AFTERDELETE"
                     curLog.trace(row)
         else:
-            curLog.prepare(["Index"] + list(log_df.columns))
-            yield curLog
+            if curLog is not None:
+                curLog.prepare(["Index"] + list(log_df.columns))
+                yield curLog
 
     elif target == "MISSFREQ":
         deleted_files = {}
-- 
2.43.0


From 4bb4421037ab2f814a7e222a634be33d0995efdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:23 +0000
Subject: [PATCH 61/83] fix: a purge that directly follows another is accounted
 in the deletion log

---
 Probe/probe/results/utils.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/Probe/probe/results/utils.py b/Probe/probe/results/utils.py
index 02fbe4d..a3f24b8 100644
--- a/Probe/probe/results/utils.py
+++ b/Probe/probe/results/utils.py
@@ -131,14 +131,15 @@ def parse_sim_log(log_df: "pd.DataFrame", target: str = "AFTERDELETE"):
         ):
             event = row[2]
 
-            if state == "AFTERDELETE":
-                if event in ["ONFREE", "ONDAYEND", "ONK", "FORCEDCALL", "FREE"]:
-                    if curLog is not None:
-                        curLog.prepare(["Index"] + list(log_df.columns))
-                        yield curLog
-                    curLog = LogDeleteEvaluator(row)
-                    state = "DELETING"
-                elif curLog is not None:
+            if event in ["ONFREE", "ONDAYEND", "ONK", "FORCEDCALL", "FREE"]:
+                if curLog is not None:
+                    curLog.prepare(["Index"] + list(log_df.columns))
+                    yield curLog
+                curLog = LogDeleteEvaluator(row)
+                state = "DELETING"
+
+            elif state == "AFTERDELETE":
+                if curLog is not None:
                     curLog.trace(row)
 
             elif state == "DELETING":
-- 
2.43.0


From a0cc69efcd8263710c2e143243979afde2247212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:37 +0000
Subject: [PATCH 62/83] fix: the files kept by a purge do not hide those it
 deleted before them

---
 Probe/probe/results/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Probe/probe/results/utils.py b/Probe/probe/results/utils.py
index a3f24b8..a611062 100644
--- a/Probe/probe/results/utils.py
+++ b/Probe/probe/results/utils.py
@@ -198,7 +198,7 @@ def parse_sim_log(log_df: "pd.DataFrame", target: str = "AFTERDELETE"):
                 freq_skip.append(freq)
 
                 name2check = None
-            else:
+            elif event != "KEEP":
                 if state == "DELETING":
                     state = "AFTERDELETE"
 
-- 
2.43.0


From f2b0d7bb35ee6ef10c0cebe8d084bc982991011a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:31 +0000
Subject: [PATCH 63/83] fix: rows put in the avro order keep their values

---
 Probe/probe/converter/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Probe/probe/converter/utils.py b/Probe/probe/converter/utils.py
index 7e1129b..fcc117e 100644
--- a/Probe/probe/converter/utils.py
+++ b/Probe/probe/converter/utils.py
@@ -63,7 +63,10 @@ def sort_from_avro(df: 'pd.DataFrame', cur_filename: str, order_folder: str) ->
     ord_df = ord_df.set_index("Filename")
     # Reindex
     new_index = df.reindex_like(ord_df, method=None).dropna()
-    df.set_index(new_index.index, inplace=True)
+    if len(df.index) != len(new_index.index):
+        print("File name not equal...")
+        exit(-1)
+    df = df.loc[new_index.index]
     df.reset_index(inplace=True)
     ord_df.reset_index(inplace=True)
     # Remove duplicate counters
-- 
2.43.0


From e131270e2d8fbd74af714b5e0ccd1f8a37a262d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:59 +0000
Subject: [PATCH 64/83] fix: a data column that is not converted can come first
 and keeps its rows

---
 DataManager/collector/dataset/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataManager/collector/dataset/reader.py b/DataManager/collector/dataset/reader.py
index 1f20948..58611b1 100644
--- a/DataManager/collector/dataset/reader.py
+++ b/DataManager/collector/dataset/reader.py
@@ -226,7 +226,7 @@ class SimulatorDatasetReader(object):
                         ]
                     )
                 else:
-                    cur_data = df[column]
+                    cur_data = df[[column]].reset_index(drop=True)
 
                 sp.text = "[Merge data]"
                 if new_df is not None:
-- 
2.43.0


From 592ec063e24dc82bfa70c3c66045e21a28d15e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:59 +0000
Subject: [PATCH 65/83] fix: buckets open on the right have room for the
 unknown values too

---
 DataManager/collector/dataset/reader.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/DataManager/collector/dataset/reader.py b/DataManager/collector/dataset/reader.py
index 58611b1..6e81b5c 100644
--- a/DataManager/collector/dataset/reader.py
+++ b/DataManager/collector/dataset/reader.py
@@ -200,10 +200,11 @@ class SimulatorDatasetReader(object):
                 if column in self._converter_map:
                     cur_map = self._converter_map[column]
 
-                    if cur_map['unknown_values'] or cur_map['bucket_open_right']:
-                        num_categories = len(cur_map['keys']) + 1
-                    else:
-                        num_categories = len(cur_map['keys'])
+                    num_categories = len(cur_map['keys'])
+                    if cur_map['unknown_values']:
+                        num_categories += 1
+                    if cur_map['bucket_open_right']:
+                        num_categories += 1
 
                     categories = []
                     for value in df[column]:
-- 
2.43.0


From 6cbb7462f4615ed5066bf264f9eaf3429b2791a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:25 +0000
Subject: [PATCH 66/83] fix: a converted value takes the slot its feature map
 says

---
 DataManager/collector/dataset/reader.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/DataManager/collector/dataset/reader.py b/DataManager/collector/dataset/reader.py
index 6e81b5c..211e207 100644
--- a/DataManager/collector/dataset/reader.py
+++ b/DataManager/collector/dataset/reader.py
@@ -213,8 +213,6 @@ class SimulatorDatasetReader(object):
                             value
                         )
                         tmp = np.zeros(num_categories, dtype='float32')
-                        if not cur_map['unknown_values']:
-                            cur_value -= 1
                         tmp[cur_value] = 1.0
                         categories.append(
                             tmp.tolist()
-- 
2.43.0


From d7eab4eab911e3edc0c0f00bf200d9670dce3fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:40 +0000
Subject: [PATCH 67/83] fix: the daily statistics start again after the days
 asked for, not one day too early

---
 Probe/probe/plotter/stats.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Probe/probe/plotter/stats.py b/Probe/probe/plotter/stats.py
index 4714d83..ef3624b 100644
--- a/Probe/probe/plotter/stats.py
+++ b/Probe/probe/plotter/stats.py
@@ -430,12 +430,12 @@ def plot_daily_stats(df: 'pd.DataFrame',
                        total=df.shape[0],
                        desc=f"{STATUS_ARROW}Parse stats"):
         if last_day != df_row.reqDay:
-            days.append(num_req)
-            last_day = df_row.reqDay
-            if reset_stat_days > 0 and len(days) % reset_stat_days == 0:
+            if reset_stat_days > 0 and days and len(days) % reset_stat_days == 0:
                 resets.append(num_req)
                 stats.append(_files)
                 _files = {}
+            days.append(num_req)
+            last_day = df_row.reqDay
 
         filename = df_row.Filename
         if filename not in _files:
-- 
2.43.0


From b61e61bc2837b4ea6595ca34577b9cec32f9e670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:58 +0000
Subject: [PATCH 68/83] fix: requests of plain CSV tables are sorted by their
 day too

---
 Probe/probe/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Probe/probe/utils.py b/Probe/probe/utils.py
index ab167c8..f1fb5ac 100644
--- a/Probe/probe/utils.py
+++ b/Probe/probe/utils.py
@@ -27,7 +27,7 @@ def sort_by_date(df: "pd.DataFrame", column_name: str = "reqDay") -> "pd.DataFra
     :return: the sorted dataframe
     :rtype: pandas.DataFrame
     """
-    df.sort_values(by="day", inplace=True)
+    df.sort_values(by=column_name, inplace=True)
     return df
 
 
-- 
2.43.0


From 2fa7a388d535d0086829f07704b96b19136ac6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:49 +0000
Subject: [PATCH 69/83] fix: a file larger than the LRU cache of the weight
 function study empties it and crashes

---
 scripts/DataAnalysis/weight_function.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/DataAnalysis/weight_function.py b/scripts/DataAnalysis/weight_function.py
index b38b43b..2541fc0 100644
--- a/scripts/DataAnalysis/weight_function.py
+++ b/scripts/DataAnalysis/weight_function.py
@@ -515,6 +515,8 @@ class LRUCache(object):
         if hit:
             file_ = self._queue.pop(self._queue.index(filename))
             self._queue.append(file_)
+        elif size > self._max_size:
+            return False
         elif self.size + size > self._max_size:
             while self.size + size > self._max_size:
                 file_ = self._queue.pop(0)
-- 
2.43.0


From 14fa4ba05c4479f2375795af2321fe6fb15e4060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:49 +0000
Subject: [PATCH 70/83] fix: the weight function study crashes when its first
 window has no request

---
 scripts/DataAnalysis/weight_function.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/scripts/DataAnalysis/weight_function.py b/scripts/DataAnalysis/weight_function.py
index 2541fc0..7fb9c2e 100644
--- a/scripts/DataAnalysis/weight_function.py
+++ b/scripts/DataAnalysis/weight_function.py
@@ -132,9 +132,9 @@ class WeightedCache(object):
         self._cache_groups = {}
 
     def clear_history(self):
-        self.size_history = [self.size_history[-1]]
-        self.hit_rate_history = [self.hit_rate_history[-1]]
-        self.write_history = [self.write_history[-1]]
+        self.size_history = self.size_history[-1:]
+        self.hit_rate_history = self.hit_rate_history[-1:]
+        self.write_history = self.write_history[-1:]
 
     def reset_history(self):
         self.size_history = []
@@ -417,10 +417,10 @@ class LRUCache(object):
         self._cache = {}
 
     def clear_history(self):
-        self.size_history = [self.size_history[-1]]
-        self.hit_rate_history = [self.hit_rate_history[-1]]
-        self.write_history = [self.write_history[-1]]
-        self.read_on_hit_history = [self.read_on_hit_history[-1]]
+        self.size_history = self.size_history[-1:]
+        self.hit_rate_history = self.hit_rate_history[-1:]
+        self.write_history = self.write_history[-1:]
+        self.read_on_hit_history = self.read_on_hit_history[-1:]
 
     def reset_history(self):
         self.size_history = []
-- 
2.43.0


From 0db346dce1da8afe59f612fbbcecbc65eee9f663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:49 +0000
Subject: [PATCH 71/83] fix: the weight function study drops caches when
 several LRU caches are asked for

---
 scripts/DataAnalysis/weight_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/DataAnalysis/weight_function.py b/scripts/DataAnalysis/weight_function.py
index 7fb9c2e..1e0942b 100644
--- a/scripts/DataAnalysis/weight_function.py
+++ b/scripts/DataAnalysis/weight_function.py
@@ -1197,9 +1197,9 @@ def main():
                     cache_list.append(function)
                     cache_remote_list.append(True)
                 else:
-                    cache_remote_list.append(False)
                     for size in args.cache_sizes:
                         for clear_cache in clear_cache_list:
+                            cache_remote_list.append(False)
                             cache_list.append(
                                 LRUCache(
                                     size,
-- 
2.43.0


From 39bd4c1f84b9f902a1461cf0210b445141ecbdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:49 +0000
Subject: [PATCH 72/83] fix: a weighted cache crashes when its weights are
 reset while it holds files

---
 scripts/DataAnalysis/weight_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/DataAnalysis/weight_function.py b/scripts/DataAnalysis/weight_function.py
index 1e0942b..fdd62df 100644
--- a/scripts/DataAnalysis/weight_function.py
+++ b/scripts/DataAnalysis/weight_function.py
@@ -289,7 +289,7 @@ class WeightedCache(object):
 
         if group not in self._group_frequencies:
             self._group_frequencies[group] = 0.
-            self._group_file_frequencies[group] = {}
+            self._group_file_frequencies.setdefault(group, {})
             self._group_num_files[group] = 0.
             self._group_files[group] = set()
             self._group_last_time[group] = time()
-- 
2.43.0


From 57cf2ee7e0894608978d9507d3df8bbe2ee4a154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:49 +0000
Subject: [PATCH 73/83] fix: the weight function study crashes on every
 weighted cache

---
 scripts/DataAnalysis/weight_function.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/scripts/DataAnalysis/weight_function.py b/scripts/DataAnalysis/weight_function.py
index fdd62df..f39cb88 100644
--- a/scripts/DataAnalysis/weight_function.py
+++ b/scripts/DataAnalysis/weight_function.py
@@ -73,6 +73,7 @@ class WeightedCache(object):
         self.size_history: List[float] = []
         self.hit_rate_history: List[float] = []
         self.write_history: List[float] = []
+        self.read_on_hit_history: List[float] = []
         self.cost_function = cost_function
         self.__cache_options = cache_options
 
@@ -135,11 +136,13 @@ class WeightedCache(object):
         self.size_history = self.size_history[-1:]
         self.hit_rate_history = self.hit_rate_history[-1:]
         self.write_history = self.write_history[-1:]
+        self.read_on_hit_history = self.read_on_hit_history[-1:]
 
     def reset_history(self):
         self.size_history = []
         self.hit_rate_history = []
         self.write_history = []
+        self.read_on_hit_history = []
         self._hit = 0
         self._miss = 0
 
@@ -206,6 +209,7 @@ class WeightedCache(object):
             'size_history': self.size_history,
             'hit_rate_history': self.hit_rate_history,
             'write_history': self.write_history,
+            'read_on_hit_history': self.read_on_hit_history,
             'cost_function': self.cost_function,
             'cache_options': self.__cache_options,
         }
@@ -230,12 +234,13 @@ class WeightedCache(object):
         self.size_history = state['size_history']
         self.hit_rate_history = state['hit_rate_history']
         self.write_history = state['write_history']
+        self.read_on_hit_history = state['read_on_hit_history']
         self.cost_function = state['cost_function']
         self.__cache_options = state['cache_options']
 
     @property
     def history(self) -> Tuple[List[float]]:
-        return (self.size_history, self.hit_rate_history, self.write_history)
+        return (self.size_history, self.hit_rate_history, self.write_history, self.read_on_hit_history)
 
     @property
     def hit_rate(self) -> float:
@@ -249,6 +254,10 @@ class WeightedCache(object):
     def written_data(self):
         return self.write_history[-1]
 
+    @property
+    def read_on_hit(self):
+        return self.read_on_hit_history[-1]
+
     def update_write_history(self, size: float, added: bool):
         try:
             last = self.write_history[-1]
@@ -259,6 +268,16 @@ class WeightedCache(object):
         else:
             self.write_history.append(last + size)
 
+    def update_read_history(self, size: float, hit: bool):
+        try:
+            last = self.read_on_hit_history[-1]
+        except IndexError:
+            last = 0.0
+        if not hit:
+            self.read_on_hit_history.append(last)
+        else:
+            self.read_on_hit_history.append(last + size)
+
     def check(self, filename: str) -> bool:
         return filename in self._cache
 
@@ -281,6 +300,7 @@ class WeightedCache(object):
         self.size_history.append(self.size)
         self.hit_rate_history.append(self.hit_rate)
         self.update_write_history(size, added)
+        self.update_read_history(size, hit)
 
         return hit
 
-- 
2.43.0


From 7eb39fef931c9ae7de2d5fce8ddddab829c523e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:53 +0000
Subject: [PATCH 74/83] fix: the common prefix of the runs is removed from the
 middle of their names too

---
 Probe/probe/results/dashboard.py | 4 ++--
 Probe/probe/results/data.py      | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/Probe/probe/results/dashboard.py b/Probe/probe/results/dashboard.py
index 1bdb3dc..07e3e46 100644
--- a/Probe/probe/results/dashboard.py
+++ b/Probe/probe/results/dashboard.py
@@ -875,7 +875,7 @@ def make_agent_figures(files2plot: list, prefix: str) -> list:
     for plot, columns in _AGENT_COLUMNS.items():
         fig_epsilon = go.Figure(layout=LAYOUT)
         for file_, df in files2plot:
-            name = file_.replace(prefix, "").replace(SIM_RESULT_FILENAME, "")
+            name = file_[len(prefix) :].replace(SIM_RESULT_FILENAME, "")
             for column in columns:
                 _add_columns(fig_epsilon, df, name, column)
         fig_epsilon.update_layout(
@@ -1062,7 +1062,7 @@ def make_line_figures(
             fig.add_trace(trace)
 
     for file_, df in files2plot:
-        name = file_.replace(prefix, "").replace(SIM_RESULT_FILENAME, "")
+        name = file_[len(prefix) :].replace(SIM_RESULT_FILENAME, "")
         if function is not None:
             y_ax = function(df)
         elif column != "":
diff --git a/Probe/probe/results/data.py b/Probe/probe/results/data.py
index 022bbd8..b54ce3c 100644
--- a/Probe/probe/results/data.py
+++ b/Probe/probe/results/data.py
@@ -301,7 +301,7 @@ def parse_simulation_report(
     del_evaluators = {}
 
     for file_, _, sim_log in tqdm(files2plot, desc="Parse log", position=1):
-        name = file_.replace(prefix, "").replace(f"/{SIM_RESULT_FILENAME}", "")
+        name = file_[len(prefix) :].replace(f"/{SIM_RESULT_FILENAME}", "")
         del_evaluators[name] = list(parse_sim_log(sim_log, target))
 
     return del_evaluators
@@ -309,7 +309,7 @@ def parse_simulation_report(
 
 def _gen_simulation_report(files2plot: list, prefix: str, target: str):
     for file_, _, sim_log in tqdm(files2plot, desc="Parse log", position=1):
-        name = file_.replace(prefix, "").replace(f"/{SIM_RESULT_FILENAME}", "")
+        name = file_[len(prefix) :].replace(f"/{SIM_RESULT_FILENAME}", "")
 
         for del_evaluator in parse_sim_log(sim_log, target):
             yield name, del_evaluator
@@ -340,7 +340,7 @@ def make_table(
     table = []
     for file_, df in files2plot:
         values = get_measures(file_, df, extended=extended)
-        values[0] = values[0].replace(prefix, "").replace(f"/{SIM_RESULT_FILENAME}", "")
+        values[0] = values[0][len(prefix) :].replace(f"/{SIM_RESULT_FILENAME}", "")
 
         row_name = []
 
-- 
2.43.0


From 4996fb8edac285d2b7f6b3dbc34112ecdbabfbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:53 +0000
Subject: [PATCH 75/83] fix: the dashboard shows the plots of another selection
 with the same components

---
 Probe/probe/results/dashboard.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/Probe/probe/results/dashboard.py b/Probe/probe/results/dashboard.py
index 07e3e46..fccaa1b 100644
--- a/Probe/probe/results/dashboard.py
+++ b/Probe/probe/results/dashboard.py
@@ -435,13 +435,13 @@ def create(results: "Results", server_ip: str = "localhost"):
         sort_by_roh_first: bool = False,
     ) -> str:
         return str(
-            hash(
-                " ".join(
-                    files
-                    + filters_all
-                    + filters_any
-                    + [str(num_of_results), str(extended), str(sort_by_roh_first)]
-                )
+            (
+                files,
+                filters_all,
+                filters_any,
+                num_of_results,
+                extended,
+                sort_by_roh_first,
             )
         )
 
-- 
2.43.0


From 4625b055111600369ce0ae52a5415a706971a4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:53 +0000
Subject: [PATCH 76/83] fix: no purge of the compared runs is found while a
 choice of the table is on

---
 Probe/probe/results/dashboard.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Probe/probe/results/dashboard.py b/Probe/probe/results/dashboard.py
index fccaa1b..2989296 100644
--- a/Probe/probe/results/dashboard.py
+++ b/Probe/probe/results/dashboard.py
@@ -793,6 +793,8 @@ def create(results: "Results", server_ip: str = "localhost"):
                 _CACHE["tables"][cur_hash] = table
                 return ("", "", "", table, "", "")
         elif at == "tab-compare":
+            # the choices of the table do not matter here
+            cur_hash = selection2hash(files, filters_all, filters_any, num_of_results)
             if cur_hash in _CACHE["compare"]:
                 _, figs, tables = _CACHE["compare"][cur_hash]
                 return ("", "", "", "", figs, tables)
-- 
2.43.0


From a6809bf0602e7349b935c7c63773a8500a87cae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:53 +0000
Subject: [PATCH 77/83] fix: the tables to download keep rows of earlier ones

---
 Probe/probe/results/dashboard.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/Probe/probe/results/dashboard.py b/Probe/probe/results/dashboard.py
index 2989296..7110a27 100644
--- a/Probe/probe/results/dashboard.py
+++ b/Probe/probe/results/dashboard.py
@@ -445,6 +445,17 @@ def create(results: "Results", server_ip: str = "localhost"):
             )
         )
 
+    def store_table(table: "pd.DataFrame"):
+        """Make the table shown the one to download."""
+        for temp_file, write in [
+            (_CSV_TEMP_FILE, table.to_csv),
+            (_TEX_TEMP_FILE, table.to_latex),
+            (_HTML_TEMP_FILE, table.to_html),
+        ]:
+            temp_file.seek(0)
+            temp_file.truncate()
+            write(temp_file)
+
     @app.callback(
         dash.dependencies.Output("toggle-extended-table-output", "children"),
         [dash.dependencies.Input("toggle-extended-table", "value")],
@@ -739,7 +750,9 @@ def create(results: "Results", server_ip: str = "localhost"):
 
         elif at == "tab-table":
             if cur_hash in _CACHE["tables"]:
-                return ("", "", "", _CACHE["tables"][cur_hash], "", "")
+                table, component = _CACHE["tables"][cur_hash]
+                store_table(table)
+                return ("", "", "", component, "", "")
             else:
                 files2plot = get_files2plot(
                     results,
@@ -777,21 +790,14 @@ def create(results: "Results", server_ip: str = "localhost"):
                         sort_by_roh_first=sort_by_roh_first,
                     )
 
-                _CSV_TEMP_FILE.seek(0)
-                table.to_csv(_CSV_TEMP_FILE)
-
-                _TEX_TEMP_FILE.seek(0)
-                table.to_latex(_TEX_TEMP_FILE)
-
-                _HTML_TEMP_FILE.seek(0)
-                table.to_html(_HTML_TEMP_FILE)
+                store_table(table)
 
-                table = dbc.Table.from_dataframe(
+                component = dbc.Table.from_dataframe(
                     table, striped=True, bordered=True, hover=True
                 )
 
-                _CACHE["tables"][cur_hash] = table
-                return ("", "", "", table, "", "")
+                _CACHE["tables"][cur_hash] = (table, component)
+                return ("", "", "", component, "", "")
         elif at == "tab-compare":
             # the choices of the table do not matter here
             cur_hash = selection2hash(files, filters_all, filters_any, num_of_results)
-- 
2.43.0


From ffcea1774550393ac2b6ad12bdb5fd6de546a929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:08 +0000
Subject: [PATCH 78/83] fix: the plot server refuses to delete its data, and
 would lose two tables

---
 scripts/DataAnalysis/plot_server.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/scripts/DataAnalysis/plot_server.py b/scripts/DataAnalysis/plot_server.py
index a27f53a..5e27e45 100644
--- a/scripts/DataAnalysis/plot_server.py
+++ b/scripts/DataAnalysis/plot_server.py
@@ -645,18 +645,17 @@ def cache_info_plot(window: int):
 
 
 @app.route('/cache/plot', methods=['DELETE'])
-def delete_plots(window: int):
+def delete_plots():
     global TABLES, WINDOW_INFO, TABLE_COLORS
-    TABLES = {
-        'hit_rate': {},
-        'size': {},
-        'written_data': {},
-        'read_on_hit': {},
-    }
+    TABLES = dict((table_name, {}) for table_name in TABLES)
 
     WINDOW_INFO = {}
 
     TABLE_COLORS = {}
+
+    for table_name, table in TABLES.items():
+        save_table(table_name, table)
+    save_table("cache_info", WINDOW_INFO)
     return f'Deleted all data'
 
 
-- 
2.43.0


From 9c97bac11eb2a381e110194c7204d756b864f17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:08 +0000
Subject: [PATCH 79/83] fix: the shares by file size leave out the largest
 files and need hits and misses

---
 scripts/DataAnalysis/plot_server.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scripts/DataAnalysis/plot_server.py b/scripts/DataAnalysis/plot_server.py
index 5e27e45..9c7f062 100644
--- a/scripts/DataAnalysis/plot_server.py
+++ b/scripts/DataAnalysis/plot_server.py
@@ -50,7 +50,7 @@ def fill_hit_miss_bins(n_bins: int, edges: list, values: list) -> tuple:
     tot_miss = sum(n_miss for _, _, n_miss in values)
 
     for value, n_hit, n_miss in values:
-        for idx in range(n_bins - 1):
+        for idx in range(n_bins):
             lower = edges[idx]
             higher = edges[idx+1]
             if value >= lower and value <= higher:
@@ -58,8 +58,10 @@ def fill_hit_miss_bins(n_bins: int, edges: list, values: list) -> tuple:
                 hist_miss_bin[idx] += n_miss
                 break
 
-    hist_hit_bin = [value / tot_hits for value in hist_hit_bin]
-    hist_miss_bin = [value / tot_miss for value in hist_miss_bin]
+    if tot_hits:
+        hist_hit_bin = [value / tot_hits for value in hist_hit_bin]
+    if tot_miss:
+        hist_miss_bin = [value / tot_miss for value in hist_miss_bin]
 
     return hist_hit_bin, hist_miss_bin
 
-- 
2.43.0


From cf100fa275f508ffa6e7ca2e64bf8cfa5edd9af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:08 +0000
Subject: [PATCH 80/83] fix: no comparison while the LRU cache is behind

---
 scripts/DataAnalysis/plot_server.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/DataAnalysis/plot_server.py b/scripts/DataAnalysis/plot_server.py
index 9c7f062..3df8d69 100644
--- a/scripts/DataAnalysis/plot_server.py
+++ b/scripts/DataAnalysis/plot_server.py
@@ -421,9 +421,9 @@ def plot_line(table_name: str, filename: str, **kwargs):
 
             if compare:
                 points = [
-                    (point - lru_values[idx]) / lru_values[idx]
-                    if lru_values[idx] != 0. else 0.
-                    for idx, point in enumerate(points)
+                    (point - lru_value) / lru_value
+                    if lru_value != 0. else 0.
+                    for point, lru_value in zip(points, lru_values)
                 ]
 
             if cache_name not in TABLE_COLORS:
-- 
2.43.0


From 7a688dae7b6a078eed48a086fde4a82e7bf48677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:08 +0000
Subject: [PATCH 81/83] fix: the comparison of the differences shows no cache

---
 scripts/DataAnalysis/plot_server.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/scripts/DataAnalysis/plot_server.py b/scripts/DataAnalysis/plot_server.py
index 3df8d69..cc2ea78 100644
--- a/scripts/DataAnalysis/plot_server.py
+++ b/scripts/DataAnalysis/plot_server.py
@@ -450,6 +450,8 @@ def plot_line(table_name: str, filename: str, **kwargs):
                         'ratio': [],
                         'diff': []
                     }
+                data[cache_name][cur_table_name] = [
+                    value for bucket in values for value in bucket]
                 if filters and check_filters(cache_name, filters):
                     continue
 
@@ -467,8 +469,6 @@ def plot_line(table_name: str, filename: str, **kwargs):
                         ]
                     else:
                         v_lines = []
-                data[cache_name][cur_table_name] = [
-                    value for bucket in values for value in bucket]
                 if cache_name not in TABLE_COLORS:
                     update_colors(cache_name)
 
@@ -507,7 +507,7 @@ def plot_line(table_name: str, filename: str, **kwargs):
                     line_width=2.
                 )
             elif table_name == 'diff_compare':
-                if cache_name.lower().find('lru') > 0:
+                if cache_name.lower().find('lru') != 0:
                     size = get_size_from_name(cache_name)
                     for cur_name in data:
                         cur_size = get_size_from_name(cur_name)
@@ -515,15 +515,16 @@ def plot_line(table_name: str, filename: str, **kwargs):
                             lru_values = data[cur_name]
                             break
 
+                    points = [
+                        value - lru_value
+                        for value, lru_value in zip(
+                            values['diff'], lru_values['diff']
+                        )
+                    ]
+
                     plot_figure.line(
-                        range(len(values['diff'])),
-                        [
-                            value -
-                            lru_values['diff'][idx]
-                            for idx, value in enumerate(
-                                values['diff']
-                            )
-                        ],
+                        range(len(points)),
+                        points,
                         legend=cache_name,
                         color=TABLE_COLORS[cache_name],
                         line_width=2.
-- 
2.43.0


From 63f6b491f33c19bf8f8b1e8b303ff2c59b5c549d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:09 +0000
Subject: [PATCH 82/83] fix: the comparison with an LRU cache keeps the bars of
 the previous one

---
 scripts/DataAnalysis/weight_function.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/DataAnalysis/weight_function.py b/scripts/DataAnalysis/weight_function.py
index f39cb88..c4844f5 100644
--- a/scripts/DataAnalysis/weight_function.py
+++ b/scripts/DataAnalysis/weight_function.py
@@ -1019,6 +1019,8 @@ def plot_cache_results(caches: dict, out_folder: str, dpi: int = 300):
         (name, data) for name, data in caches.items()
             if name.find("LRU") != -1]:
 
+        plt.clf()
+
         pbar = tqdm(
             desc=f"Plot weight info compared to {lru_name}",
             total=len(no_LRU_info)*len(vertical_lines), ascii=True
-- 
2.43.0


From 5795fd4868b693079f3da0b54a78bf4fc82f4e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:09 +0000
Subject: [PATCH 83/83] fix: differences between negative values have the wrong
 sign

---
 scripts/resultAnalysis/epsilon_diff_calc.py | 2 +-
 scripts/resultAnalysis/noSize_diff_calc.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/resultAnalysis/epsilon_diff_calc.py b/scripts/resultAnalysis/epsilon_diff_calc.py
index cb84fba..c75030f 100644
--- a/scripts/resultAnalysis/epsilon_diff_calc.py
+++ b/scripts/resultAnalysis/epsilon_diff_calc.py
@@ -58,7 +58,7 @@ slow_cost_diffs = []
 slow_readOnHitRatio_diffs = []
 slow_bandwidth_diffs = []
 
-calc_diff_perc = lambda a, b: ((abs(a - b) / ((a + b) / 2.0)) * 100.0) * (
+calc_diff_perc = lambda a, b: ((abs(a - b) / abs((a + b) / 2.0)) * 100.0) * (
     -1.0 if a > b else 1.0
 )
 
diff --git a/scripts/resultAnalysis/noSize_diff_calc.py b/scripts/resultAnalysis/noSize_diff_calc.py
index d8fae29..6a2763d 100644
--- a/scripts/resultAnalysis/noSize_diff_calc.py
+++ b/scripts/resultAnalysis/noSize_diff_calc.py
@@ -54,7 +54,7 @@ no_size_cost_diffs = []
 no_size_readOnHitRatio_diffs = []
 no_size_bandwidth_diffs = []
 
-calc_diff_perc = lambda a, b: ((abs(a - b) / ((a + b) / 2.0)) * 100.0) * (
+calc_diff_perc = lambda a, b: ((abs(a - b) / abs((a + b) / 2.0)) * 100.0) * (
     -1.0 if a > b else 1.0
 )
 
-- 
2.43.0

