# The property catalogue, executed by props.py.
SC = SIM + "cache/simpleCache.go"
BASE = SIM + "cache/base.go"
Q = SIM + "cache/queue/"
RL = SIM + "cache/aiRL.go"
SIMGO = SIM + "cache/simulation.go"
STATS = SIM + "cache/files/stats.go"

prop("C01", "Occupancy never exceeds the cache's capacity",
     "For every cache with a fixed capacity, the occupied size is never negative and never above the configured capacity after any request, load of a dump, eviction, watermark clean-up or clear. A file larger than the whole capacity is never stored.",
     ["inputs", "histories", "configurations"],
     "every replacement policy (LRU, LFU, biggest first, smallest first, random admission, weight function, dataset verifier, learning agents), every sequence of requests with any file sizes, with or without watermarks and redirection",
     "The unit tests insert a handful of files of fixed sizes into one policy; capacity pressure, oversized files, restored dumps and the learning policies' own eviction paths are never exercised.",
     [SC, RL, SIM + "cache/randomCache.go", SIM + "cache/lruDatasetVerifier.go", SIM + "cache/weightFun.go"],
     [("admission and eviction", SC + ":UpdatePolicy/Free"), ("learning eviction", RL + ":UpdatePolicy/callEvictionAgent")],
     tech="online invariant monitor on the real caches under randomized and hostile request traces",
     state=[("occupied size", "sum of the sizes of the stored files", SC), ("capacity", "configured maximum", SC)])

prop("C02", "Occupied size and file counters balance with the stored files",
     "At any moment the occupied size equals the sum of the sizes of the stored files, the number of stored files equals files added minus files deleted, and the occupied size equals data written minus data deleted, all counted since the cache was last completely empty and its counters reset. This holds for every policy provided each file keeps the same size.",
     ["inputs", "histories", "configurations"],
     "every policy and configuration, every request sequence, across resets of the daily counters (whose values add up over the days) and of the contents",
     "Tests look at the size after a few inserts; drift only shows after long mixed histories of evictions, clean-ups and resets.",
     [SC, RL, Q + "lru.go", Q + "lfu.go", Q + "genericF.go", Q + "none.go"],
     [("bookkeeping", SC + ":UpdatePolicy/AfterRequest/Free")],
     tech="conservation monitor: full balance against the dumped contents after every operation")

prop("C03", "Eviction takes the policy's worst files, and only as many as needed",
     "When a file does not fit, files are evicted in the policy's order (least recently requested; least frequently requested, counting every request the cache still has statistics for; biggest; smallest; ties broken by least recently requested) and eviction stops as soon as the evicted files amount to at least the size of the requested file. When the file fits nothing is evicted. The admission-controlled LRU variants (random admission, weight function, dataset verifier) evict in LRU order.",
     ["inputs", "histories"],
     "every policy with a defined order and every history of requests, hits, evictions and re-insertions",
     "Queue tests check short fixed insertion sequences; order after interleaved updates, evictions, re-insertions and equal keys is not sampled.",
     [SC, Q + "lru.go", Q + "lfu.go", Q + "genericF.go"],
     [("victim selection", SC + ":Free"), ("orders", Q)],
     tech="reference-model monitor comparing the complete worst-first contents after every request")

prop("C04", "A request is a hit exactly when the file is stored, and counters add up",
     "A request is a hit exactly when the file was stored and has not been evicted or cleared since. Requests equal hits plus misses, data read equals data read on hits plus data read on misses, each is the exact sum over the requests since the last counters reset, the hit rate is the percentage of hits (0 with no requests), and the weighted hit rate is the hit rate multiplied by the data read on hits.",
     ["inputs", "histories", "configurations"],
     "every policy, every request history with evictions, clears, counter resets and redirections",
     "Tests assert a hit rate after four requests; the ledger over long histories with resets and redirections is never checked.",
     [SC, BASE, RL],
     [("request path", BASE + ":GetFile"), ("counters", SC + ":AfterRequest")],
     tech="online ledger monitor over every request")

prop("C05", "Replacement queues list exactly their files, in policy order",
     "A replacement queue contains exactly the files inserted and not removed; its worst-first listing is ordered by the policy, its best-first listing is the exact reverse, and its listing up to a size is the shortest worst-first prefix whose sizes reach it. Inserting a file already present or updating an unknown file is refused and changes nothing.",
     ["inputs", "histories"],
     "every queue kind (LRU, LFU, biggest, smallest, unordered) and every sequence of insert, update, remove and remove-worst operations, with any repetition of keys",
     "The queue tests run fixed sequences with a few files; the index bookkeeping after arbitrary interleavings is not covered.",
     [Q + "base.go", Q + "lru.go", Q + "lfu.go", Q + "genericF.go", Q + "none.go"],
     [("queue operations", Q)],
     tech="model-based monitor: random operation sequences against a reference list")

prop("C06", "Requests are redirected exactly when the daily bandwidth is used up",
     "A request is redirected exactly when redirection is enabled, the file is not stored, and the data read on misses since the last counters reset is at least 95% of the daily bandwidth (the configured Gbit/s over one day, 10,800,000 MB per Gbit/s). A redirected request changes nothing but the redirected count and the redirected size, which grow by one and by the file's size.",
     ["inputs", "histories", "configurations"],
     "every policy, bandwidth and request history, including usage exactly at the threshold",
     "No test enables redirection.",
     [BASE, SC],
     [("redirect rule", SC + ":CheckRedirect"), ("request path", BASE + ":GetFile")],
     tech="online rule monitor with full snapshots around each redirected request")

prop("C07", "Watermark clean-up frees just enough, and only above the high watermark",
     "With watermarks enabled, a request that leaves the occupancy at or above the high watermark is followed by the eviction of the shortest run of worst files that brings the occupancy to the low watermark or below. Below the high watermark, or with watermarks disabled, nothing is evicted by the clean-up.",
     ["inputs", "histories", "configurations"],
     "every policy with a defined order, every pair of watermarks and every request history",
     "No test enables watermarks.",
     [SC, BASE],
     [("watermark", SC + ":CheckWatermark"), ("freeing by percentage", SC + ":Free")],
     tech="reference-model monitor of the contents after every request")

prop("C08", "A cache restored from a dump is the cache that was dumped",
     "Dumping a cache with its files and statistics and loading the dump into a fresh cache of the same configuration restores the stored files in their eviction order, the occupied size and every field of every file's statistics. Deterministic policies then continue exactly as the dumped cache would have: same hits, same additions, same evictions.",
     ["crash_points", "histories", "configurations"],
     "every policy, every point of every request history at which the cache is dumped and reloaded",
     "One test dumps and reloads two files and compares sizes; hot-start behaviour after the reload is not looked at.",
     [SC, SIM + "cache/weightFun.go", RL, STATS, SIM + "cache/lruDatasetVerifier.go"],
     [("dump", SC + ":Dumps/Dump"), ("load", SC + ":Load/Loads")],
     tech="differential monitor: dumped cache and restored cache run side by side")

prop("C10", "Clearing a cache forgets exactly what it says",
     "After a full clear a cache behaves exactly like a fresh one of the same configuration (for deterministic policies). Clearing only the files empties the contents and keeps the per-file statistics and the counters; resetting the counters zeroes the counters and keeps contents and per-file statistics.",
     ["histories", "configurations"],
     "every policy and every history before the clear and after it",
     "One test clears a cache and checks that its size is zero.",
     [SC, SIM + "cache/weightFun.go", RL, STATS],
     [("clears", SC + ":Clear/ClearFiles/ClearStats")],
     tech="differential monitor: cleared cache against a fresh cache side by side")

prop("C11", "Per-file statistics count every request and are kept while relevant",
     "For every cache with a fixed capacity, each file's statistics count every served request exactly once (hits, misses, total, latest size, and the times of its last 32 requests); redirected requests are not counted. Statistics are dropped only in clean-ups at least the configured interval apart, and a clean-up drops exactly the files that are not stored and have not been requested for the configured number of days.",
     ["histories", "configurations"],
     "every policy, retention setting and request history over many days",
     "One test checks a single statistics record; retention over days is not tested.",
     [STATS, SC],
     [("statistics update", STATS), ("clean-up", SC + ":AfterRequest")],
     tech="reference-table monitor on the dumped statistics")

prop("C12", "The weight-function cache stores a missing file iff it is cheap enough",
     "The weight-function cache stores a missing file exactly when its weight is not above the mean weight of all files it has statistics for, where a file's weight is computed by the configured function from its request count, its size and the mean age (sum of the ages in minutes of its up to 32 last requests, divided by 32). This still holds after clears, statistics clean-ups and restarts from a dump.",
     ["inputs", "histories", "configurations"],
     "every weight function and parameters, every request history with clears, clean-ups and reloads",
     "The tests check the weights of a few hand-made records; the running mean through clean-ups and reloads is not checked.",
     [SIM + "cache/weightFun.go", STATS, SIM + "cache/functions/functions.go"],
     [("admission", SIM + "cache/weightFun.go:UpdatePolicy"), ("weight sum", STATS)],
     tech="online decision monitor recomputing every weight from the request history")

MAIN = SIM + "main.go"
CSVREC = SIM + "cache/simulation.go"

prop("C13", "Every input record is accounted for exactly once",
     "A completed simulation's run statistics count each record read in exactly one way: before the window start, filtered out, invalid, redirected, or served, with totals and redirected size matching the log. The request counts of the daily lines add up to the records served on the completed days, and reading stops at the end of the window.",
     ["inputs", "configurations"],
     "every input log, region, window, bandwidth and policy configuration",
     "No test runs a simulation; the classification only shows over whole logs with mixed records.",
     [SIMGO], [("record loop", SIMGO + ":Simulate")], kind="sim",
     tech="offline conservation checker: the built simulator's outputs against an independent classification of the log")

prop("C14", "Results do not depend on how the log is packaged",
     "The same records give the same daily results and run statistics whether they come as one CSV file, a gzip-compressed file, or a folder of CSV and compressed CSV files read in name order (other files in it are ignored), and whatever the order of the columns or the presence of extra columns in each file.",
     ["inputs", "configurations"],
     "every log, every split over files, every column permutation, with and without compression",
     "No test reads a log file.",
     [SIMGO, MAIN], [("reading", SIMGO + ":OpenSimFile/OpenSimFolder/Iterator")], kind="sim",
     tech="metamorphic differential monitor over equivalent packagings of the same log")

prop("C15", "Exactly the records selected by the region rules are simulated",
     "A record is simulated exactly when its job succeeded with exit code 0, it passes the region's selection, and its CPU efficiency (CPU time over CPU plus I/O time, in percent) is a number between 0 and 100 included. Region us keeps data types 0 and 3 with file types 2 and 9 from sites 0 to 8; region it keeps data types 0 and 1; any other region keeps everything. File sizes are the logged bytes in MB (1024*1024 bytes).",
     ["inputs", "configurations"],
     "every record and region",
     "No test feeds records through the filters.",
     [SIMGO, SIM + "cache/utils.go"],
     [("selection", SIMGO + ":Simulate"), ("record parsing", SIMGO)], kind="sim",
     tech="offline monitor: the files in the final dump against the selection rules, one file per record")

prop("C16", "Each daily line reports that day's requests",
     "A day ends with the first record at least 23 hours after its first record; one line, dated with that first record, is written for every completed day, even one without any served request, and the unfinished last day is not written. Every column (request, hit, addition, deletion and redirection counts, volumes, sizes, bandwidth usage, hit rates, free space, CPU efficiencies, misses of just evicted files) describes that day alone, or the cache at its end.",
     ["inputs", "histories", "configurations"],
     "every log, policy with a defined order, watermark, bandwidth and redirection setting, over many days",
     "No test produces a daily line; per-day resets and the secondary metrics only show over several days.",
     [SIMGO, BASE, SC], [("daily lines", SIMGO + ":Simulate"), ("metrics", BASE)], kind="sim",
     tech="reference-simulation monitor over every cell of the results file")

prop("C18", "A simulation is reproducible",
     "Two simulations with the same configuration, random seed and data, started empty or from the same dump, give identical daily results, run statistics, stored files, file statistics and learned tables.",
     ["inputs", "configurations", "schedules"],
     "every policy and configuration, including random admission and the learning policies, on any schedule of the simulator's background goroutines",
     "No test runs a policy with randomness twice.",
     [RL, SIM + "cache/randomCache.go", SIM + "cache/ai/qlearn/qlearn.go", SIM + "cache/ai/featuremap/featuremap.go"],
     [("random draws", RL + ":UpdatePolicy/callEvictionAgent")], kind="sim",
     tech="differential monitor: pairs of simulator runs under different schedules and garbage collection",
     note="One known finding: the unordered random policy evicts in map order, which no seed controls.")

prop("C31", "The simulation window selects exactly its days",
     "With window size S, start A and stop B, exactly the records of days A*S to B*S-1 of the log are simulated (counting days that have records, from 0); earlier records are only counted as jumped, later ones are not read. Daily lines are written only for the completed days of the window.",
     ["inputs", "configurations"],
     "every window and every log with any gaps between its records",
     "No test uses a window.",
     [SIMGO], [("window", SIMGO + ":Simulate")], kind="sim",
     tech="offline monitor: served files and daily lines against independent day counting")

prop("C32", "Completed results are never lost",
     "A run whose output folder already has results changes nothing unless overwriting is enabled. A hot start (loading a dump) with overwriting archives the previous results, unchanged, under a new name, and never alters results archived earlier; a run with overwriting and no dump replaces only the current results.",
     ["histories", "configurations"],
     "every sequence of runs in the same output folder, with any number of archived results",
     "No test runs the command line.",
     [MAIN], [("result handling", MAIN + ":simulationCmd")], kind="sim",
     tech="history monitor comparing all result files before and after each run of a random run sequence")

prop("C33", "The configuration means what it says",
     "Cache sizes are read with units M, G, T or P in either case (powers of 1024 MB), and the daily bandwidth is 10,800,000 MB per configured Gbit/s. Unset options take their documented defaults (100 T, 10 Gbit, region all, current folder), results land in a folder named after the type, size, bandwidth and region together with the configuration in use, and unknown units, cache types or weight functions are refused without producing results.",
     ["configurations"],
     "every configuration",
     "No test reads a configuration file.",
     [MAIN, BASE], [("configuration", MAIN)], kind="sim",
     tech="offline monitor: the built simulator's output location, reported sizes and refusals against the documented rules")

FM = SIM + "cache/ai/featuremap/featuremap.go"
QL = SIM + "cache/ai/qlearn/qlearn.go"

prop("C09", "A restarted learning cache keeps everything it learned",
     "Dumping a learning cache and loading the dump restores the complete learned tables and feature maps of its agents, and, when the dump includes them, the stored files and file statistics; a dump without files restores an empty cache. The exploration rate after a load is the one given to the load.",
     ["crash_points", "histories", "configurations"],
     "every learning mode, feature map and request history at which the cache is dumped and reloaded",
     "No test dumps a learning cache.",
     [RL, QL, FM],
     [("dump and load", RL + ":Dumps/Loads")],
     tech="differential monitor: the learned state before the dump against the state after the load")

prop("C17", "The event log tells the cache's whole history",
     "With logging on, replaying the additions and deletions of the event log gives the stored files after every request, and every event carries the occupied size, the percentage of the capacity in use, the file with its size and its number of requests, and the number of served requests so far. Each request logs exactly one hit or miss, and exactly one line for an addition, redirection or skip when one happens.",
     ["histories", "configurations"],
     "every policy and configuration with logging on, every request history with counter resets",
     "No test turns the log on.",
     [SC, RL, SIM + "cache/weightFun.go", SIM + "cache/lruDatasetVerifier.go", SIM + "cache/infiniteCache.go"],
     [("log", SC + ":toLogBuffer/UpdatePolicy/Free")],
     tech="offline trace checker: the event log replayed against the observed cache")

prop("C19", "Feature maps are read as written and put values in the right bucket",
     "A feature map file (JSON, or gzip-compressed JSON) is read into its features in name order with the given types, bounds and file-feature marks. A numeric value falls in the first bucket whose bound is not below it, or, if the feature is open to the right, in an additional last bucket; strings and booleans match their listed value; any other value has no bucket (-1).",
     ["inputs", "configurations"],
     "every feature map file and every value",
     "The tests read one feature map and look up a few values.",
     [FM], [("parsing", FM + ":Parse"), ("bucketing", FM + ":Index")],
     tech="differential monitor of every lookup against an independent reading of the definition")

prop("C20", "Learning tables have exactly one row per combination of feature values",
     "An agent's table has one state for each combination of feature values and one value, initially 0, for each action of the agent's role; every combination maps to its own state. The printed table has one line per state, in order, with the action values and the feature values of that state.",
     ["inputs", "configurations"],
     "every feature map with any number of features and values, for both roles",
     "The tests build one table and check its size.",
     [QL, FM], [("table", QL + ":MakeQTable/FeatureIdxs2StateIdx/QTableToString")],
     tech="exhaustive enumeration monitor of every table state for generated feature maps")

prop("C21", "The agent learns, explores and remembers by its rules",
     "An update changes only the value of the given state and action, by 0.9 * (reward + 0.5 * best value of the next state - old value), and the best action of a state is one with the highest value. The exploration rate after n steps is 0.1 + 0.9 * exp(-decay * n), never goes below 0.1, is not stepped once at or below it, and returns to 1 (or the given rate) only when unleashing is enabled. A limited memory keeps the latest 32 choices per file; recalling returns them in order once, and deleting, resetting and coverage figures cover exactly what they name.",
     ["histories", "inputs"],
     "every sequence of agent operations on every table",
     "The tests perform a single update and a few epsilon steps.",
     [QL], [("update rule", QL + ":UpdateTable"), ("exploration", QL + ":UpdateEpsilon/UnleashEpsilon"), ("memory", QL + ":SaveMemory/Remember")],
     tech="reference-model monitor of the agent's complete state after every operation")

prop("C22", "A run of the eviction agent takes one valid decision per category",
     "Stored files are grouped by the size and request-count buckets of the agent's feature map; in each run every category with files gets exactly one decision: keep all, delete all, half or a quarter of them (rounded down, at least one), or the least recently requested one. The action counters count these decisions, and no other stored file is touched, also after a restart. With exploration off, where an agent decides on evictions only, each decision has the highest learned value in the category's state.",
     ["histories", "configurations"],
     "every eviction mode, feature map, request history and restart",
     "No test runs the eviction agent.",
     [RL, SIM + "cache/aiRLCatStateManager.go"],
     [("eviction run", RL + ":callEvictionAgent"), ("categories", SIM + "cache/aiRLCatStateManager.go")],
     tech="trace checker: logged deletions and keeps explained as decisions, matched with the counters")

prop("C24", "The learning counters agree with what happened",
     "Since the last reset, the addition agent's store and not-store decisions together equal the misses served and the not-store decisions equal the skips logged; requests, hits, additions and deletions equal the logged ones. Calls of the eviction agent (when it works without an addition agent) and forced calls equal the logged ones, decisions are counted only when files are kept or deleted, and without an agent all its counters stay 0.",
     ["histories", "configurations"],
     "every learning mode and request history with counter resets and redirections",
     "No test looks at the learning counters.",
     [RL], [("counters", RL + ":UpdatePolicy/ClearStats/ExtraOutput")],
     tech="offline trace checker: counters after every request against the event log")

prop("C34", "The addition agent is trained on the outcome of its own decisions",
     "The agent decides for every served miss, in the state given by the file's size, request count, requests since its last one, cache occupancy and hit rate; storing happens only when it decides so, and does happen when it decides so and the file fits. With exploration off it takes the decision with the higher learned value. When a file is requested again its remembered decisions update exactly the values of their own state and action with the rewards of the mode: in SCDL the file's size in GB (penalties for download and write pressure, otherwise plus on a hit and minus on a miss), in SCDL2 +1 on a hit, and on a miss -1 (stored) or -2 (not stored) towards the next remembered state.",
     ["histories", "configurations"],
     "both addition modes, every feature map, exploration rate, bandwidth and request history",
     "No test runs the addition agent inside a cache.",
     [RL, QL], [("training", RL + ":delayedRewardAdditionAgent"), ("decision", RL + ":UpdatePolicy")],
     tech="reference-learner monitor: the complete learned table after every request")

prop("C23", "Runs are free of data races and independent of the schedule",
     "A simulation makes no unsynchronized concurrent access to shared memory and always finishes. Its daily results, run statistics, event log and dump are the same however the concurrent reader, converter and log writer are scheduled, on any number of processors.",
     ["schedules", "configurations", "inputs"],
     "every schedule of the concurrent record readers, log writer and main loop, every policy, input packaging (plain, gzip, folder) and processor count, with and without a dump, an event log and a window",
     "The tests run on one schedule, mostly in one goroutine, without the race detector.",
     [STATS, SIMGO, MAIN, SIM + "cache/files"], [("readers", SIM + "cache/files"), ("event log", SC + ":toLogBuffer")],
     kind="simrace", tech="Go race detector on the simulator, differential monitor over processor counts and garbage collection settings",
     note="Schedules are sampled by varying the number of processors, the garbage collector and the race detector's own delays; the random cache's known map-order dependence (C18) is only checked for races.")

prop("C25", "The infinite cache keeps everything and bounds every policy",
     "Without watermarks the infinite cache never evicts: a request is a hit exactly when the file was requested before since the last clear, and it stores exactly the requested files. No other policy has more hits or more data read on hits on the same requests.",
     ["histories", "configurations"],
     "every request history and every other policy and configuration on it",
     "The tests make one infinite cache request.",
     [SIM + "cache/infiniteCache.go", BASE], [("admission", SIM + "cache/infiniteCache.go")],
     tech="reference-model and differential monitor of the infinite cache and all other policies on the same requests")

prop("C26", "Each policy admits exactly the files its rule admits",
     "LRU, LFU, biggest-first and smallest-first caches store every missed file not larger than the capacity. The dataset verifier stores a missed file that fits exactly when it is in its dataset. The random caches store about half of the missed files, decided by the seed and the number of misses decided before alone.",
     ["histories", "configurations"],
     "every admission-controlled policy and request history",
     "The tests make a handful of requests that are all admitted.",
     [SC, SIM + "cache/lruDatasetVerifier.go", SIM + "cache/randomCache.go", SIM + "cache/randomLRU.go"],
     [("admission", SC + ":UpdatePolicy")], tech="reference-model monitor of every admission, statistical monitor of the random ones")

prop("C29", "The daily metrics are the exact figures of the day's requests",
     "Average and standard deviation of the free space are those of the free space after each served request since the last counters reset, and the bandwidth usage is the data read on misses in percent of the daily bandwidth. CPU efficiencies are means over the same requests: local requests give the upper bound, remote ones the lower bound, a remote request that hits gains and a local one that misses loses the local-remote difference (fixed for regions it and us, otherwise the positive difference of the bounds when no region is set). The number of misses after delete counts the misses on files that the latest eviction removed, and reading it resets it.",
     ["histories", "configurations"],
     "every policy and configuration, every request history with counter resets",
     "No test reads these figures.",
     [SC, BASE, SIM + "cache/weightFun.go"], [("metrics", SC + ":AfterRequest/AvgFreeSpace/CPUEff"), ("misses after delete", SC + ":NumMissAfterDelete")],
     tech="reference-model monitor: every figure recomputed from the observed requests")

prop("C35", "A simulation can be split and resumed through a dump",
     "For the policies without randomness or learning, simulating the first part of a log with a dump and then the rest from that dump gives the same daily results and final contents as simulating the whole log at once, when the cut is at the end of a recorded day and no statistics expire. A cold start from the dump forgets the stored files but keeps the file statistics; without statistics, or from a dump without files, it gives the results of a fresh run. Dumps not named are written to, and loaded from, the result folder.",
     ["crash_points", "configurations", "inputs"],
     "every log, cut point at the end of a recorded day, deterministic policy and start mode (the misses after delete, which look back at the latest eviction before the cut, excepted)",
     "The tests dump and load a single cache in memory.",
     [SIMGO, SC, RL], [("start modes", SIMGO + ":Simulate"), ("dump", SC + ":Dump/Load")], kind="sim",
     tech="differential monitor: the split run's result files against the uninterrupted run's")

prop("C36", "The eviction agent is trained on the outcome of its own decisions",
     "In a cache whose only agent evicts, a request for a file updates exactly the remembered decisions about it, all but the latest, each for its own state and action and towards the next remembered state: on a hit +1, +1 more if it kept files, +1 more if it kept files and the occupancy did not grow until the next decision; on a miss -1, -1 more if it deleted and -1 more if the occupancy grew. A forced call first punishes by -1 each remembered keep decision, towards every latest state of the same size bucket and no higher request count, and forgets all memories; after a forced or space-driven call every latest decision gets -1 if it kept files while the requested file still did not fit, else +1. Each update is one exploration step, and the value function is the sum of all rewards.",
     ["histories", "configurations"],
     "every eviction agent mode, feature map, exploration rate and request history without an addition agent",
     "No test trains the eviction agent inside a cache.",
     [RL, QL, SIM + "cache/aiRLCatStateManager.go"],
     [("training", RL + ":delayedRewardEvictionAgent/rewardEvictionAfterForcedCall")],
     tech="reference-learner monitor: the complete learned table after every request")

prop("C37", "The daily learning columns and printed tables tell what the agents did",
     "The learning columns of every daily result line are that day's activity in the event log: stored decisions are the served misses not skipped, not-stored ones the skipped, forced and eviction calls the logged ones; the number of known file categories after each served request gives their mean (rounded down) and deviation, and -1 stands for an absent agent. Exploration rates stay between the minimum 0.1 and the maximum 1 and never rise from one line to the next unless unleashing is on; the last ones follow from each agent's steps and its own start and decay, or the common ones where it has none. The tables printed at the end of the run are the tables in its dump.",
     ["configurations", "inputs"],
     "every learning mode, window and log; calls are judged where there is no addition agent",
     "No test runs a learning simulation.",
     [SIMGO, RL, QL], [("columns", RL + ":ExtraStats/ExtraOutput"), ("printed tables", SIMGO + ":Simulate")], kind="sim",
     tech="offline checker: result lines against the recorded event log, printed tables against the dump")

prop("C38", "A run is defined by its configuration file and repeatable from its saved copy",
     "The simulator runs the configuration file it is given, whatever other files are beside it, and finds the files named in it relative to its folder. The configuration saved in the result folder, put in the folder of the original with only the output folder changed, gives the same daily results, run statistics, contents, tables and event log; the event log is written exactly when asked for.",
     ["configurations", "inputs"],
     "every policy except the unordered ones, configuration file name, folder, restart and overwritten previous result",
     "No test starts a run from a configuration file.",
     [MAIN, SIMGO], [("configuration", MAIN + ":simCommand"), ("saved copy", SIMGO + ":Simulate")], kind="sim",
     tech="differential monitor: the run repeated from its own saved configuration, decoy configuration files beside the given one")

OLD = "qLearning_smartCache/"
prop("C27", "The value cache keeps the most valuable files within its capacity",
     "In the small Q-learning simulator a file's value is its first known size times its number of requests, and the occupied size, filling percentage, points (sum of the stored files' values) and least valuable stored file are always those of exactly the files stored and not evicted or removed since. The occupied size never exceeds the capacity: inserting evicts stored files in order of increasing value, only as many as needed, and a file that exactly fits needs no eviction. Inserting a stored file, or one larger than the whole cache, changes nothing.",
     ["histories", "inputs"],
     "every sequence of requests, insertions and removals of files of every size",
     "The directory has no tests.",
     [OLD + "cache/cache.go"], [("eviction", OLD + "cache/cache.go:Insert"), ("statistics", OLD + "cache/cache.go:UpdateStats")], kind="old",
     tech="reference-model monitor: the complete observable state after every operation, file sizes that identify the stored set")

prop("C28", "The small simulator's Q-table is complete and updates one value at a time",
     "The table has one state, with an index of its own and all values 0, for every combination of the features' buckets; a feature's value belongs to the first bucket whose bound is not below it, or to the last. The best action of a state is one of the given actions with the highest value. An update with reward r changes only the value of the given action in the given state, by 0.9 x (r + decay rate x the state's highest value - the old value), whatever the order in which the actions were given.",
     ["inputs", "histories"],
     "every feature map, list of actions, environment and sequence of updates",
     "The directory has no tests.",
     [OLD + "qtable/qtable.go"], [("states", OLD + "qtable/qtable.go:genStates/GetStateIdx"), ("update", OLD + "qtable/qtable.go:Update")], kind="old",
     tech="reference-table monitor: every value after every update, every state of the feature map")

NN = SIM + "cache/ai/neuralnet/neuralnet.go"
prop("C39", "A loaded network predicts what its file describes",
     "A network read from a plain or compressed model file predicts, for every input, the feed-forward result of the file's layers in order: each layer's inputs times its weights plus its bias, through sigmoid, hard sigmoid (x/5 + 1/2 clipped to [0, 1]) or, in the last layer, softmax (the exponentials normalised to sum 1). The predicted class is the position of the largest output. Predicting changes neither the network nor its input.",
     ["inputs"],
     "every model file, number and width of layers, and input with finite exponentials",
     "The package has no tests.",
     [NN], [("prediction", NN + ":Predict/softMax/GetPredictionArgMax"), ("model file", NN + ":LoadModel")],
     tech="reference-evaluation monitor over generated models and inputs")

DC = "DataManager/collector/"
PYNOTE = ("Python libraries that are not installed (numpy, fastavro, requests, pyspark, tqdm, matplotlib...) are stand-ins in pyharness/stubs with the "
          "behaviour the code relies on; every execution of the seeded workload is judged, nothing is claimed about others.")
prop("C40", "A JSON data file gives back exactly the records written to it, in order",
     "The records appended to a JSON data file (dictionaries, JSON strings, lists or generators of both, initial data; plain, gzip, bzip2 or in memory; written at once or reopened to append) are read back equal and in order by iteration, length, chunks, index (negative ones count from the end), slices with any positive step, reversed slices [a:b] with a > b, and reading from a start record, in any mix and whatever was read before, whether or not the last line ends the file. Anything that is not a JSON object or value is refused without being written, and an index beyond the records is refused.",
     ["inputs", "histories"],
     "every sequence of appends, reopenings, checkpoints and reads, every JSON value, every container format",
     "The tests write a handful of small records once and read them by one way at a time.",
     [DC + "datafile/json.py", DC + "datafile/utils.py", DC + "api.py"],
     [("writer", DC + "datafile/json.py:JSONDataFileWriter"), ("reader", DC + "datafile/json.py:JSONDataFileReader"), ("interface", DC + "api.py:DataFile")],
     kind="py", note=PYNOTE, tech="round-trip monitor: the written records against every way of reading, in random mixes")

prop("C41", "An Avro data file gives back exactly the records written to it, in order",
     "Records of one shape (integers of 64 bits, double precision numbers, strings, bytes, booleans, nulls, lists, maps and nested records) appended to an Avro data file one by one or in lists are read back equal, of the same types and in order by iteration, length, chunks, index, slices with any positive step and reversed slices, in any mix. An index or slice beyond the records is refused with an index error; an empty list adds nothing; what is not a dictionary or a list of dictionaries is refused without being written.",
     ["inputs", "histories"],
     "every shape of record, sequence of appends and mix of reads, in memory, temporary and named files",
     "The tests write a few integers and floats once.",
     [DC + "datafile/avro.py", DC + "datafile/utils.py", DC + "api.py"],
     [("schema", DC + "datafile/avro.py:AvroObjectTranslator"), ("writer", DC + "datafile/avro.py:AvroDataFileWriter"), ("reader", DC + "datafile/avro.py:AvroDataFileReader")],
     kind="py", note=PYNOTE, tech="round-trip monitor over generated record shapes, against an independent container implementation")

prop("C42", "Every record of every batch goes through every pipeline stage exactly once",
     "A stage run over batches processes every batch exactly once and its output is exactly the records the batches produced, none lost or repeated, for any number of processes or with Spark, never with more batches at once than processes. A pipeline feeds the whole output of each stage to the next in batches of the configured size; its result, its number of results, the outputs saved for each stage and the saved result file hold exactly those records, and batches cut from the sources or the records keep their order and are all full except the last.",
     ["schedules", "inputs", "configurations"],
     "every number of records, batches, batch sizes, processes and stages, delays inside the processes, results of any number per record",
     "No test runs a stage; losses depend on which process is busy when a batch arrives.",
     [DC + "dataset/stage.py", DC + "dataset/generator.py", DC + "dataset/resource.py"],
     [("dispatch", DC + "dataset/stage.py:Stage.task"), ("chain", DC + "dataset/generator.py:Pipeline.run"), ("saved stages", DC + "dataset/resource.py:set")],
     kind="py", note=PYNOTE, tech="exactly-once checker over the event logs of real worker processes with injected delays")

prop("C43", "Feature records are extracted, copied and summed without loss",
     "A raw popularity record is valid exactly for jobs of type analysis and then carries every raw feature unchanged with the file name as id, and nothing otherwise; a popularity record carries the four features of the path (store type, campaign, process, file type), is valid exactly for the stores data and mc, keeps the job data, and has an id that depends on the features alone and differs between different features. Pickling, dumping and loading keep every one of them, including validity. Adding records of the same features sums requests and wrap CPU, the score being wrap CPU per request, and only the classes good and bad can be set.",
     ["inputs"],
     "every job record and file name, including short, unknown and malformed paths",
     "No test covers the extractors.",
     [DC + "datafeatures/extractor.py", DC + "datafeatures/utils.py"],
     [("extraction", DC + "datafeatures/extractor.py"), ("records", DC + "datafeatures/utils.py")],
     kind="py", note=PYNOTE, tech="reference-extraction monitor over generated job records")

prop("C44", "The data sets made from job records hold each valid record, or its sum, once",
     "The raw and the featured stage give exactly the records of valid jobs and valid paths; the test0 stage gives one record for every different set of features, with the number of requests and the total wrap CPU of all its records whatever batch they came in, classed good when its score is at least the average score of the records and bad otherwise. The whole pipeline gives what the stages give one after the other.",
     ["inputs", "schedules", "configurations"],
     "every list of job records, batch size and way of running",
     "No test runs the stages.",
     [DC + "dataset/stage.py"], [("raw, featured and test0 stages", DC + "dataset/stage.py")],
     kind="py", note=PYNOTE, tech="conservation monitor: own grouping and sums of the generated records")

prop("C45", "A data source gives each file of each day of its window once, byte for byte",
     "A window of dates lists, in order, every step-th day of the given number of days from its start, and the next window those from its end. A local or remote source gives every file of every day of its window once and in order, a dataset source all its records in batches of the configured size, and a missing day or a failed answer is an error; what a source saves, locally or remotely, is read back as the same records, replacing an older file. The remote file system client opens, lists, creates, deletes and makes exactly the named paths, sends its credentials and user on every request, uploads and downloads every byte and raises an error for every refusing answer.",
     ["inputs", "fault_sequences"],
     "every date, window, step, number of files, content and answer of the server",
     "No test covers the sources or the client.",
     [DC + "dataset/resource.py", DC + "dataset/utils.py", "DataManager/agent/api.py"],
     [("windows", DC + "dataset/utils.py:gen_window_dates"), ("sources", DC + "dataset/resource.py"), ("client", "DataManager/agent/api.py:HTTPFS")],
     kind="py", note=PYNOTE, tech="monitor of a real HTTP endpoint on the loopback with injected refusals; contents compared byte for byte")

prop("C46", "A support table numbers its categories and converts every value consistently",
     "After indexing, the categories of each feature are exactly those inserted (with the unknown one when asked for), numbered from 0 without gaps in ascending order of their lower-case names, also when more are inserted and the table is indexed again. A value converts to the first category, in number order, that it begins with, else to the unknown one, else it is refused; data converts, feature by feature in alphabetical order, to the fraction of the number over the number of categories or to a one-hot vector. Reducing a feature to a level leaves one category per first word, made of at most that many further words of an inserted one, and copies by pickling or from a dictionary convert alike.",
     ["inputs", "histories"],
     "every sequence of insertions, reductions and indexings, every value",
     "No test covers the tables.",
     [DC + "dataset/utils.py"], [("table", DC + "dataset/utils.py:SupportTable"), ("readable dictionary", DC + "dataset/utils.py:ReadableDictAsAttribute")],
     kind="py", note=PYNOTE, tech="reference-table monitor: all questions asked again after every indexing and copy")

prop("C47", "Each training fold validates on its own part and trains on all the rest",
     "A data set read for training gives, without folds, every record in order with its features converted by the support table and the number of its class, or its one-hot vector when asked for. With k folds of n records, fold i validates on records i*(n div k) to (i+1)*(n div k) - 1 and trains on exactly all the other records, in order. The scores are wrap CPU per request of each record and their mean.",
     ["inputs", "configurations"],
     "every data set with at least k records, number of folds, encoding and set of classes",
     "No test covers the reader.",
     [DC + "dataset/reader.py"], [("folds", DC + "dataset/reader.py:CMSDatasetTest0Reader.train_set")],
     kind="py", note=PYNOTE, tech="partition monitor: own encoding of every record compared with every fold")

EV = "SmartCache/ai/models/evaluator.py"
prop("C48", "The evaluator's caches hit and evict as their names say, also when resumed",
     "A request hits exactly when the file is stored; a missed file is stored exactly when insertion is asked for. The simple cache never evicts; the FIFO cache of n files evicts the one inserted first and the LRU cache the one requested least recently, only to make room for an inserted file and only when n are stored. The size and hit rate (percentage) histories have one entry per request, and a cache resumed from the state of another continues as that one.",
     ["histories"],
     "every sequence of requests with and without insertion, sizes and points of resumption",
     "No test covers the evaluator.",
     [EV], [("caches", EV + ":SimpleCache/FIFOCache/LRUCache")],
     kind="py", note=PYNOTE, tech="reference-model monitor after every request, with resumptions at random points")

prop("C49", "A comparison plays every request once, in order, on both caches",
     "The evaluator's comparison plays every record's file once and in order on the plain cache, always inserting, and on the model's cache, inserting exactly the files the model accepts, whatever the number of requests asked of the model at a time. The wrap CPU of a cache is, after each request, the sum of the wrap CPU of its hits, and a day mark is put at the first timed request and at each timed request more than a day after the last mark.",
     ["inputs", "configurations"],
     "every data set, pair of caches, model and stride, plotted or resumed from previous caches",
     "No test covers the evaluator.",
     [EV], [("comparison", EV + ":Evaluator._compare"), ("plots", EV + ":Evaluator.compare")],
     kind="py", note=PYNOTE, tech="reference replay of the same requests, compared with the plotted curves and the caches")

prop("C50", "The Python LRU keeps recent files within its size and counts every byte",
     "The occupied size is the sum of the stored files' sizes and never above the maximum; a missed file that is not larger than the maximum is stored after evicting the least recently requested files, only as many as needed, and a larger one is not stored and evicts nothing. Hits, misses and the hit rate (a fraction), written, deleted and read data, and each file's hits, misses and last size are the exact counts and sums over all requests.",
     ["histories", "inputs"],
     "every sequence of requests whose stored files keep their size",
     "No test covers it.",
     ["SmartCache/pySim/cache.py"], [("policy", "SmartCache/pySim/cache.py:LRU.update_policy"), ("accounting", "SmartCache/pySim/cache.py:LRU.after_request")],
     kind="py", note=PYNOTE, tech="reference-model monitor after every request")

GENR = "SmartCache/ai/models/generator.py"
prop("C51", "The model server answers with the network's class and exports it unchanged",
     "The class predicted for an input, alone or among others, is the position of the network's largest output, and the prediction service answers store exactly for class 1. An exported network file holds, layer by layer in order, the names, activation functions, weights and biases with their shapes, exactly as they are in the network.",
     ["inputs"],
     "every network output and input, any number of layers and classes",
     "No test covers the models.",
     [GENR], [("prediction", GENR + ":DonkeyModel.AIPredictOne/predict"), ("export", GENR + ":DonkeyModel.export_weights")],
     kind="py", note=PYNOTE + " The network itself is a stand-in: training with Keras is not covered.",
     tech="reference-answer monitor with a stand-in network whose weights and outputs are known")

AG = "DataManager/agent/"
prop("C52", "Putting a data file into the archive sends every record once, in order",
     "The command that puts a data file (JSON or avro, compressed or not) into a document archive sends its records from the start index on, each once and in order, one request per record or, in bulk mode, one request per bucket of that many records, the last one with what is left; a document is named by the BLAKE2s digest of what is sent, and each request carries the user and the whole password given. It reports the number of records of the file and exits with 0, unless a request is not answered with 200 or 201: then nothing more is sent and the exit status is not 0.",
     ["inputs", "fault_sequences"],
     "every data file, bucket size, start index, user and refused request",
     "The agent's tests only convert one record to a row.",
     [AG + "cli.py", AG + "api.py"], [("command", AG + "cli.py:cli_main"), ("client", AG + "api.py:ElasticSearchHttp/HTTPFS")],
     kind="py", note=PYNOTE + " The archive is a real HTTP server on the loopback; items refused one by one inside an accepted bulk request are not looked at by the code and not claimed.",
     tech="exactly-once checker over the requests a real loopback server received, with injected refusals")

prop("C53", "The agent prints the records asked for and makes rows in name order",
     "The command that gets from a data file prints the record at an index, or the list of those of a slice with start, stop and step, exactly as the file holds them, and fails for a file that does not exist or an index beyond the last record. A CSV row holds a list's values in order or a dictionary's in the order of their names; a libSVM row starts with the label and then numbers the other values from 1 in the order of their names, a record without its label is refused, and no conversion changes the record.",
     ["inputs"],
     "every data file, index and slice with a stop, every flat record",
     "Two tests convert one record each.",
     [AG + "cli.py", AG + "converter/csv.py", AG + "converter/libSVM.py"],
     [("command", AG + "cli.py:cli_main"), ("rows", AG + "converter/csv.py:CSVConverter.row"), ("labeled rows", AG + "converter/libSVM.py:LibSVMConverter.labeled_row")],
     kind="py", note=PYNOTE, tech="round-trip monitor: what is printed against what was written")

PR = "Probe/probe/"
prop("C54", "Request tables are loaded whole, in day order, with exactly the rows asked for",
     "Loading a folder reads exactly its CSV files (plain or gzip) of the month asked for, in name order, and keeps exactly the rows whose site name contains the region between underscores and whose file name contains the file type between slashes, ignoring case ('all' or nothing keeps every row; tables whose sites are numbers are not filtered). Concatenated, generated one at a time or listed with their file names after the number of CSV files of the folder, the tables hold the same rows in the same order; an empty folder gives an empty table, and an unsupported file, or asking both or neither of concatenating and generating, is refused.",
     ["inputs", "configurations"],
     "every folder or file of tables, region, type and month filter, and way of loading",
     "No test covers the analysis tools.",
     [PR + "loaders.py"], [("tables", PR + "loaders.py:csv_data/gen_csv_data"), ("filters", PR + "loaders.py:_load_csv_file")],
     kind="py", note=PYNOTE, tech="reference-selection monitor over generated folders")

prop("C55", "The converter replaces names by ids that stay the same, row by row",
     "The converter writes, beside each table, a numeric one with the same rows in the same order (shuffled: the same rows in an order the seed alone decides; with an order folder: in the listed order of their file names, the requests of one file in their own order, tables without a list left out) and the same numbers, where every text, including region, campaign and process taken from site and file names, is replaced by its category's id. Within a category different texts have different ids and the ids are 0, 1, 2... without gaps; an id never changes in later tables and later runs, and queries of the stored categories answer exactly these ids, for all values by name or by id, or for one value.",
     ["inputs", "histories"],
     "every sequence of runs over folders of tables, region, order or shuffle seed",
     "No test covers the analysis tools.",
     [PR + "converter/"], [("conversion", PR + "converter/__main__.py:main"), ("ids", PR + "converter/utils.py:CategoryContainer"), ("columns", PR + "converter/extractor.py")],
     kind="py", note=PYNOTE, tech="bijection checker over the tables of every run, and the queries' answers")

prop("C56", "The results table ranks every run by its exact mean measures",
     "Aggregating folders finds every run's results below them with their daily rows and, on demand, its event log, and selects a run exactly if it has all and any of the components asked for. The table of measures gives for each run the mean over its days of throughput ((data read on hit - data written) / cache size), cost ((written + deleted) / cache size), read on hit ratio in %, bandwidth usage, misses after delete and CPU efficiency (extended: also in TB, redirected volume and free space in % of the cache size, hit over miss, hit rate), 0 for a missing column, rounded to 6 digits. Its rows, each named by the parts of the run's path (without run_full_normal, epsilon_test, random_cache and plain sizes; left out features and epsilon speeds marked), are ordered by throughput, then cost ascending, read on hit ratio and misses after delete, or by read on hit ratio first, and it has the first N rows asked for.",
     ["inputs"],
     "every set of runs, missing columns, number of rows and order",
     "No test covers the analysis tools.",
     [PR + "results/data.py"], [("aggregation", PR + "results/data.py:aggregate_results/Results"), ("measures", PR + "results/data.py:get_measures"), ("table", PR + "results/data.py:make_table")],
     kind="py", note=PYNOTE + " Days whose ratio is 0/0 do not enter a mean.", tech="reference-value monitor over generated result trees")

prop("C57", "The deletion report gives every purge its files and the misses it caused",
     "For every purge in a run's event log (ONFREE, ONDAYEND, ONK, FORCEDCALL or FREE) the report gives tick, event, cache size and occupancy, the number and total size of the files it deleted (not of those it kept) and how often these were missed before the next purge, as a dictionary or one at a time; the plots show these misses per tick and summed up. The frequency report lists the request counts, when deleted, of the files deleted by the latest purge that deleted any, at their first miss after it, and of the skipped files, plotted as percentages of all of them in the classes up to 1, 2, 6 and above.",
     ["inputs", "histories"],
     "every event log in the form the simulator writes, any number of purges",
     "No test covers the analysis tools.",
     [PR + "results/utils.py", PR + "results/data.py", PR + "results/plotters.py"],
     [("log", PR + "results/utils.py:parse_sim_log/LogDeleteEvaluator"), ("report", PR + "results/data.py:parse_simulation_report"), ("plots", PR + "results/plotters.py")],
     kind="py", note=PYNOTE, tech="offline checker of recorded event logs, through the report and the command's plots")

DSR = DC + "dataset/reader.py"
prop("C58", "A training table becomes one-hot columns as its feature map says",
     "Every row of a simulator dataset becomes one row of data: a converted column gives exactly one 1, in the slot its stored feature map names for the value (values in the order of the sort type if sorting is asked for, after a slot 0 kept for unknown values if asked for; a bucket is the first bound not below the value, an open end takes what is beyond the last one), any other column its value unchanged, column by column in the order asked for. A value with no slot is refused; labels are one-hot by category or the column's values, the last column's by default; the stored map holds every converted column's values, type and buckets, and saved data are loaded equal.",
     ["inputs", "configurations"],
     "every table, choice of columns, buckets and unknown values (float categories that differ in their second decimal)",
     "No test covers the simulator dataset.",
     [DSR], [("map", DSR + ":SimulatorDatasetReader.make_converter_map"), ("data", DSR + ":SimulatorDatasetReader.make_data_and_labels")],
     kind="py", note=PYNOTE, tech="slot-by-slot monitor against the table and the stored map")

prop("C59", "Feature bins and upper limits count the successful data and MC requests only",
     "Only requests of successful jobs on data or MC files, of the region, file type and month asked for, count. The bins of a feature give the share of its values in each range above the previous edge up to its edge, the last range open: file sizes in whole MB, requests per file of each day, week or month, or the number of requests between two requests of a file within it, with the edges of the feature file (twice the last one ends an open end) or else the 16 % quantiles and twice the last. The upper limits give for each day the highest hit rate (repeated requests over requests), the highest share of data read on hit (size of the repeated requests over that of all) and the size of the different files in TB, with their means.",
     ["inputs", "configurations"],
     "every set of daily tables, grouping, feature file and feature list",
     "No test covers the analysis tools.",
     [PR + "analyzer/features.py", PR + "plotter/stats.py"],
     [("bins", PR + "analyzer/features.py:Features.check_bins_of"), ("upper limits", PR + "plotter/stats.py:plot_global_upper_limits")],
     kind="py", note=PYNOTE, tech="reference-count monitor over the figures the command writes")

prop("C60", "Request statistics follow every file, and count every full week",
     "The daily statistics number all requests asked for (of a region, file type or month) in day order and, per period of the days asked for (one period if 0), draw for each file with at least two requests in it, at each of them, its requests, different users and sites so far, its size in whole MB and the distance from its previous request (0 at first), files with one request in a plot of sizes of their own, and each file's requests against its last size, users and sites. Each day's and each later period's first request and the end are marked. The weekly statistics give for every full seven request days the different users, sites, jobs, tasks and files, the requests, and the mean requests per file, of all files and of those with more than one.",
     ["inputs", "configurations"],
     "every set of request tables, plain or compressed, number of days per period and output",
     "No test covers the analysis tools.",
     [PR + "plotter/stats.py", PR + "analyzer/__main__.py", PR + "utils.py"],
     [("daily", PR + "plotter/stats.py:plot_daily_stats"), ("weekly", PR + "plotter/stats.py:plot_week_stats")],
     kind="py", note=PYNOTE, tech="reference-count monitor over the points, lines and bars handed to the recorded plotting library")

prop("C61", "Generated configurations cover every combination, each with its own results",
     "The test generator empties the configs folder and writes a configuration for every combination of region (it, us), cache (lru, lfu, sizeBig, sizeSmall, aiRL with SCDL, aiRL with SCDL2 and eviction onK, onFree or NoEviction), watermarks, 100 or 200 TB and window (every 4, 12 and 16 weeks of 52, the last ones shorter), for SCDL with learning rate 0.1, 0.001 or 0.0001, for SCDL2 with each for addition and, except NoEviction, for eviction, for onK with k 1024, 2048 or 4096, and with the data and feature maps of the command line. The weight function generator writes one for each function (FuncAdditive, FuncAdditiveExp, FuncMultiplicative) and choice of three of its eleven weights. Two different configurations never write their results in the same folder.",
     ["configurations"],
     "every configuration the generators write, feature maps given or not, an old configs folder there or not",
     "The generators have no tests; a lost combination or a shared result folder shows only when results are missing.",
     ["scripts/tests/generator.py", "config/simulations/weight_function_italian_dataset/100T/make_configs.py"],
     [("combinations", "scripts/tests/generator.py:generator"), ("folder", "scripts/tests/generator.py:ConfigParameters.out_folder")],
     kind="py", note=PYNOTE, tech="conservation monitor: the written configurations against the set of all combinations, and the result folder of each against all others")

prop("C62", "Data preparation keeps exactly the records asked for, day by day",
     "The filter scripts read, for each day of the period and no other, that day's log from the bucket and store beside it, in the bucket named after it with -analysis or -analysis-data-mc, the day's records of type analysis (any case), for the second only those whose second path part is data or mc, complete and in order. The move script copies each day's file from HDFS to the bucket unchanged and goes on with the next day if an upload is refused. The cleaning script writes for each compressed table one without the rows that lack a value and without an index column; none of the scripts leaves temporary files or changes its source.",
     ["inputs", "fault_sequences"],
     "every period across month and year ends, every record, refused uploads, every table",
     "The scripts have no tests.",
     ["scripts/filter_analysis_logs.py", "scripts/filter_analysis_data-mc_logs.py", "scripts/move_data_hdfs2minio.py", "scripts/DataAnalysis/clean_csv.py"],
     [("filter", "scripts/filter_analysis_logs.py:main"), ("move", "scripts/move_data_hdfs2minio.py:main"), ("clean", "scripts/DataAnalysis/clean_csv.py:main")],
     kind="py", note=PYNOTE, tech="conservation monitor on an in-memory object store and a fake hdfs command")

prop("C63", "Exploration starts again only for an agent that keeps getting worse",
     "With unleashing on, an agent whose exploration rate is at most 0.11 compares its value with that of its previous comparison at the first served request of each new day; it counts the falls in a row, and at the eighth one starts exploring again and counts anew. With a negative value the rate goes back to 1 and the agent's memories are forgotten, otherwise it goes to the first rate of its schedule not above 0.5 and the memories stay. In every other case, and always with unleashing off, the rate never rises after its first step.",
     ["histories", "configurations"],
     "every agent mode, start and decay, request history and number of days",
     "No test runs an agent for more than a handful of requests.",
     [RL, QL], [("comparison", RL + ":BeforeRequest/AfterRequest"), ("restart", QL + ":UnleashEpsilon/ResetParams")],
     tech="reference-automaton monitor: the state of both agents in the cache's dump before and after every request")

prop("C71", "The eviction agent runs exactly when it is due",
     "A served miss that is to be stored and does not fit in the free space calls the eviction agent before the addition: on space if it is an onFree agent, as a forced call if it works periodically or at the end of the day. An onK agent besides runs at a served request, after its addition, exactly when k other served requests came since its last periodic run, and an onDayEnd agent once at every reset of the daily counters, even of an empty cache. Nothing else runs it, and without an eviction agent such a miss frees space by the plain policy instead.",
     ["histories", "configurations"],
     "every mode of learning cache, k, occupancy, request, reset and clearing history",
     "No test drives an eviction agent to a full cache.",
     [RL], [("storing", RL + ":UpdatePolicy"), ("periods", RL + ":AfterRequest/ClearStats")],
     tech="offline checker of the event log against the due runs after every request and reset")

prop("C72", "The agents explore as often as their rate and try every action alike",
     "An agent with exploration rate e decides at random in a share e of its decisions, each of its actions being equally likely then, and takes the action with the best learned value in the others: at rate 0 always the best one, at rate 1 always a random one. The decisions follow from the seed: the same seed decides alike, another seed otherwise; deciding alone changes neither the learned values nor the rate.",
     ["histories", "configurations"],
     "every rate and best action of every mode, over thousands of decisions per run",
     "No test looks at more than one decision.",
     [RL, QL], [("addition", RL + ":UpdatePolicy"), ("eviction", "SmartCache/sim/cache/aiRLCatStateManager.go:GetStateFromCategories"), ("random", QL + ":GetRandomFloat/GetBestAction")],
     tech="statistical monitor of the decision counters, within 6 standard deviations")

prop("C64", "Every option of a configuration reaches the cache it describes",
     "A run has the daily lines, contents, per-file statistics, learned tables, exploration rates and event log of the policy built directly with the configuration's options and asked the run's requests: window, size, bandwidth and redirection, watermarks, clean-up periods, random seed, weight function and its parameters, known dataset, and for each learning agent its feature map, kind, period k, exploration start, decay and unleashing (its own, else the common one; unleashing asked for in common holds for both). Options left out take their defaults: windows of 7 days from the first one, no dump or event log, a dump with files and statistics, seed 42, watermarks off at 95 and 75, redirection off, 10 Gbit/s, clean-ups after 6 days every 7, additive exponential weight with parameters 1, exploration from 1 with decay 0.0000042 and unleashing, onK eviction with k 32, SCDL2.",
     ["configurations", "inputs"],
     "every combination of given and left-out options of every policy with a defined order of evictions",
     "No test reads a configuration file.",
     [MAIN, SIMGO], [("options", MAIN + ":simCommand"), ("parameters", SIMGO + ":InitInstance")], kind="sim",
     tech="differential monitor: the built simulator against the policy constructed in process with the same options")

prop("C65", "The caches of the weight function study hold and report what they should",
     "Both kinds admit a file that fits and never hold more than their size. For one that does not fit, the LRU cache drops the files least recently asked for until it fits, unless it is larger than the whole cache; the weighted cache updates the weights of the files of its group and drops the heaviest files first, as long as they weigh more than the newcomer, until it fits, the weight being the cost of its size, its own requests and the requests of its group since the last reset. Hit rate, size, data written (admitted) and read (on hits) and their histories follow request by request, survive saving and restoring, and the program simulates every cache, size and option asked for over each window's complete requests of its region, sends a daily report to the plot server where one is given, and drives a remote cache with the same requests.",
     ["histories", "configurations"],
     "every sequence of requests, clears, resets and restores; every list of result files, window and region",
     "The study has no working tests.",
     ["scripts/DataAnalysis/weight_function.py"],
     [("weighted", "scripts/DataAnalysis/weight_function.py:WeightedCache"), ("lru", "scripts/DataAnalysis/weight_function.py:LRUCache"), ("simulate", "scripts/DataAnalysis/weight_function.py:simulate/main/store_results")],
     kind="py", note=PYNOTE, tech="reference-model monitor after every request; loopback plot server and recorded simulation service")

prop("C66", "Job statistics count every job record once, with the size of its file",
     "The table made of job records has one row per record, in order, with the start of its day, success (exit code 0), whole hours and minutes between start and end, CPU time per core, the rest of the wall time as I/O time, and the size the databases of data and mc files give for its file or none, directly or through a shared store that other processes are still filling. Extracting a period writes one such file per day and leaves no temporary file. The figures of a window (consecutive groups of days in name order, the last one possibly shorter) are those counted from its rows: requests, files, users, sites, tasks, jobs, protocols, times, distinct files by request count and by size, and the means of distinct things per thing.",
     ["inputs", "schedules"],
     "every record, size database, order of reads, state of the shared store and grouping of days",
     "The program has no tests.",
     ["scripts/DataAnalysis/statistics.py"],
     [("records", "scripts/DataAnalysis/statistics.py:Statistics"), ("windows", "scripts/DataAnalysis/statistics.py:make_dataframe_stats"), ("extraction", "scripts/DataAnalysis/statistics.py:make_stats/main")],
     kind="py", note=PYNOTE, tech="conservation monitor over generated records, sqlite databases and a shared store another process fills")


prop("C67", "The dashboard shows exactly the runs, plots and tables chosen",
     "At every step of a session each tab shows the selected files that have all and any of the components chosen, and nothing else: a plot per column, per measure (13, one value a day, 0 for a missing column) and per group of agent columns (runs with agents), one line per run, named by its path after the part common to all; the N best runs if N are asked for; and the table of means in the width and order chosen, which the CSV, LaTeX and HTML downloads repeat. The comparison shows, for each run shown with an event log, its purges as curves (files deleted, whole GB, later misses) and a panel of rows, and for a run and tick the request counts, sizes and files that the first purge then deleted or kept, and those added after it. Select all and Unselect all do that; a panel's button opens or closes that panel only.",
     ["histories"],
     "every set of runs and every history of selections, tabs, toggles, clicks and downloads",
     "No test covers the dashboard.",
     ["Probe/probe/results/dashboard.py", "Probe/probe/results/data.py"],
     [("session", "Probe/probe/results/dashboard.py:create"), ("plots", "Probe/probe/results/dashboard.py:make_line_figures/make_agent_figures"),
      ("comparison", "Probe/probe/results/dashboard.py:parse_simulation_report_stuff")],
     kind="py", note=PYNOTE, tech="reference-model monitor of generated dashboard sessions, run by a stand-in of the page that calls the registered callbacks")


prop("C68", "The plot server shows the values it was sent, through restarts",
     "For each of its six tables, cache and window the server keeps the values sent, one by one or in an update (a value for a position that exists replaces it, any other is added at the end), gives their numbers in its status and has them again after a restart; a deletion empties everything for good. A plot has one line per cache whose name contains all texts asked for, its windows one after another with a divider at each window's end: the values of a table, or those relative to the LRU cache of the same size and region as (v - lru) / lru over the points both have, or read on hit over written data, their difference, or that minus the LRU cache's (0 where the divisor is 0). The contents of a window show, for each other cache and its LRU cache, the files by falling weight with a bar for each file held, and the shares of all hits and of all misses by file size in 100 equal ranges.",
     ["histories"],
     "every history of values and contents sent, plots asked for, restarts and deletions",
     "No test covers the plot server.",
     ["scripts/DataAnalysis/plot_server.py"],
     [("values", "scripts/DataAnalysis/plot_server.py:insert_line_in_table"), ("plots", "scripts/DataAnalysis/plot_server.py:plot_line"),
      ("contents", "scripts/DataAnalysis/plot_server.py:plot_info_window")],
     kind="py", note=PYNOTE, tech="reference-model monitor of generated histories of requests, answered by the program's own routes under a stand-in of the web framework")

prop("C69", "The figures of the two studies show the stored results",
     "Drawn from stored results of the weight function study, the histories show for every cache its size, data written and hit rate after each request of all windows and mark the end of each window; one figure per LRU cache shows for each other cache and window that window's files by falling weight, and which of them each of the two caches holds; and one the correlations of the file statistics of each other cache and window, below the diagonal. The page made from the daily job statistics has for every window a bar with each of its requests and files, mean requests per file (all; those with more than the fewest), mean files per user, task and job, jobs and tasks per user and jobs per task, sizes of all, of least requested and of other files, and users, sites, tasks and jobs.",
     ["inputs", "configurations"],
     "every stored result of any set of caches and windows; every set of days and window width",
     "No test covers the figures.",
     ["scripts/DataAnalysis/weight_function.py", "scripts/DataAnalysis/statistics.py"],
     [("study", "scripts/DataAnalysis/weight_function.py:plot_cache_results"), ("windows", "scripts/DataAnalysis/statistics.py:plot_windows")],
     kind="py", note=PYNOTE, tech="monitor of everything drawn (lines, marks, bars, matrices), compared with generated results and recounted windows")


prop("C70", "Small tools compare runs, bound hit rates and restore orders exactly",
     "The comparison of epsilon decays (of a left out size) reports, for each cache size and method with both a slow and a fast run (a run without the size), the differences in throughput, cost, read on hit ratio and bandwidth from the normal run, in percent of the mean of the two and positive where the normal run is smaller, and their means over these runs. The upper bounds of a daily file are the hit rate and the share of data read on hit of its successful requests if only the first of each file is a miss. Each row of a request table gets a checksum of its file, job, data type, user and the number of earlier rows of the file, rows of two tables with the same checksum are put in the order of the original one, and a text's hash is its 8 byte BLAKE2b digest in hexadecimal or modulo 10^10.",
     ["inputs"],
     "every results table, daily file, pair of request tables and text",
     "No test covers these tools.",
     ["scripts/resultAnalysis", "datasets/add_hit_upper_bound.py", "scripts/merge_dataframe_in_order.py", "SmartCache/utils/hash_tool.py"],
     [("differences", "scripts/resultAnalysis/epsilon_diff_calc.py and noSize_diff_calc.py"), ("bounds", "datasets/add_hit_upper_bound.py:main"),
      ("order", "scripts/merge_dataframe_in_order.py:add_checksum/match_order")],
     kind="py", note=PYNOTE, tech="monitor of the programs' output, recomputed from generated tables")


def na(id, title, statement, over, quant, why, files, mech, reason):
    prop(id, title, statement, over, quant, why, files, mech)
    NA.append((P.pop()["rec"], reason))


na("C90", "The XCache plugin stores what the prediction service accepts",
   "Each file the cache daemon asks about is stored exactly if the prediction service answers store for it.",
   ["inputs", "fault_sequences"], "every file and answer of the service", "The plugin has no tests.",
   ["SmartCache/plugin"], [("decision", "SmartCache/plugin")],
   "The plugin's Go part does not compile at this commit (it uses a request field its protocol definition does not have), so there is nothing to execute and observe.")
na("C91", "A trained model separates the accesses it was trained on",
   "Training on a labelled dataset improves the share of accesses the model classifies as labelled.",
   ["inputs"], "every training set", "Training needs the real libraries.",
   [GENR], [("training", GENR + ":DonkeyModel.train")],
   "Training runs inside TensorFlow/Keras, which is not installed and cannot be; a stand-in would only monitor itself. Its exported weights and predictions are covered by C51 and C39.")
