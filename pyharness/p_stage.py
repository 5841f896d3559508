"""Stages, pipelines, their sources, and feature records (C42 - C45)."""
import hashlib
import io
import json
import os
import pickle
import random
import re
import threading
import time
from collections import Counter
from datetime import date, timedelta
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from urllib.parse import parse_qs, unquote, urlsplit

from pcheck import register

# ---- a stage that records what is done with it ---------------------------------------


def log_line(path, **kv):
    fd = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o644)
    os.write(fd, (json.dumps(kv) + "\n").encode())
    os.close(fd)


def read_log(path):
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [json.loads(x) for x in f]


def work(records, queue, log, tag):
    """Emit `n` copies of every record, with hostile delays; the whole batch is logged before and after."""
    key = hashlib.blake2s(json.dumps(records, sort_keys=True).encode()).hexdigest()
    log_line(log, what="begin", pid=os.getpid(), batch=key, tag=tag, at=time.monotonic())
    rng = random.Random(key)
    if rng.random() < .3:
        time.sleep(rng.random() * .02)
    out = []
    for record in records:
        for i in range(record["n"]):
            out.append({"id": record["id"], "copy": i, "tag": record["tag"] + tag, "pad": record["pad"], "n": record["keep"], "keep": record["keep"]})
    for obj in out:
        if queue is not None:
            queue.put(obj)
            if rng.random() < .05:
                time.sleep(.001)
    if rng.random() < .3:
        time.sleep(rng.random() * .02)
    log_line(log, what="end", pid=os.getpid(), batch=key, tag=tag, at=time.monotonic())
    return None if queue is not None else out


def make_stage(log, tag):
    from DataManager.collector.dataset.stage import Stage

    class Recorded(Stage):
        @staticmethod
        def process(records, queue=None):
            return work(records, queue, log, tag)
    return Recorded(tag)


def multiset(records):
    return Counter(json.dumps(r, sort_keys=True) for r in records)


def same_records(t, got, want, what):
    got, want = multiset(got), multiset(want)
    t.evals += 1
    if got != want:
        t.fail(f"{what}: missing {dict(list((want - got).items())[:3])}, too many {dict(list((got - want).items())[:3])}")


def expanded(records, tag):
    return [{"id": r["id"], "copy": i, "tag": r["tag"] + tag, "pad": r["pad"], "n": r["keep"], "keep": r["keep"]}
            for r in records for i in range(r["n"])]


def check_log(t, log, tag, batches, limit):
    """Every batch processed exactly once, by at most `limit` processes at a time."""
    lines = [x for x in read_log(log) if x["tag"] == tag]
    want = Counter(hashlib.blake2s(json.dumps(b, sort_keys=True).encode()).hexdigest() for b in batches)
    for what in ("begin", "end"):
        t.check(Counter(x["batch"] for x in lines if x["what"] == what) == want,
                "batches were not processed exactly once: %d of %d %s lines", sum(x["what"] == what for x in lines), len(batches), what)
    now = most = 0
    for x in sorted(lines, key=lambda x: x["at"]):
        now += 1 if x["what"] == "begin" else -1
        most = max(most, now)
    if limit:
        t.check(most <= limit, "%d batches processed at once by %d processes", most, limit)
    return most


def make_records(rng, n, many):
    recs = [{"id": i, "n": rng.choice([0, 1, 1, 1, 2, many]), "tag": "", "pad": "x" * rng.choice([0, 3, 40]), "keep": rng.choice([1, 1, 2])}
            for i in range(n)]
    if recs and not any(r["n"] for r in recs):
        recs[rng.randrange(n)]["n"] = 1
    return recs


def split(rng, items, sizes):
    out, pos = [], 0
    while pos < len(items):
        size = rng.choice(sizes)
        out.append(items[pos:pos + size])
        pos += size
    return out


def one_output(batch):
    return any(r["n"] for r in batch)


@register("C42", quick=640, deep=5000, timeout=90,
          rule="A case is one stage or pipeline run with real processes (or the local Spark stand-in) whose batches log when they are "
               "processed; a situation is (way of running, number of batches, processes, batches at once, batch sizes).",
          need=["processes", "spark", "pipeline", "saved stage", "result file", "more batches than processes", "batches at once"])
def stages(t):
    import pyspark
    from DataManager.collector.api import DataFile
    from DataManager.collector.dataset.generator import Pipeline
    from DataManager.collector.dataset.resource import CMSResourceManager, Resource
    from DataManager.collector.dataset.stage import CMSRawStage
    rng = t.rng
    log = os.path.join(t.dir, "log.jsonl")
    pyspark.SparkContext.parallelism = rng.choice([1, 2, 3, 8])
    kind = rng.choice(["task", "task", "task", "spark", "run", "pipeline", "pipeline", "batches"])
    n = rng.choice([1, 2, 5, 17, 40])
    records = make_records(rng, n, rng.choice([3, 3, 30]))
    if kind in ("task", "spark"):
        batches = split(rng, records, rng.choice([[1], [1, 2, 3], [4, 7], [100]]))
        procs = rng.choice([1, 1, 2, 3, 4, 8])
        stage = make_stage(log, "s")
        out = stage.task((b for b in batches) if rng.random() < .5 else batches, num_process=procs, use_spark=kind == "spark")
        if sum(len(expanded(b, "s")) for b in batches):
            same_records(t, DataFile(out), expanded(records, "s"), f"output of {len(batches)} batches with {procs} processes ({kind})")
        most = check_log(t, log, "s", batches, procs if kind == "task" else None)
        t.count("spark" if kind == "spark" else "processes")
        if len(batches) > procs and kind == "task":
            t.count("more batches than processes")
        if most > 1:
            t.count("batches at once")
        t.sig(kind, len(batches), procs, most)
        t.sample({"kind": kind, "batches": len(batches), "processes": procs, "at once": most, "outputs": len(expanded(records, "s"))})
        return
    if kind == "run":
        batches = split(rng, records, [1, 2, 5])
        stage = make_stage(log, "s")
        spark = rng.random() < .4
        out = stage.run(iter(batches), use_spark=spark)
        same_records(t, out, expanded(records, "s"), "output of a stage")
        same_records(t, stage.output, expanded(records, "s"), "output kept by a stage")
        check_log(t, log, "s", batches, None)
        t.sig(kind, spark, len(batches))
        return
    if kind == "batches":
        # the raw stage cuts the records of all its sources into batches of one size
        size = rng.choice([1, 2, 3, 7, 42])
        sources = split(rng, records, [1, 3, 10])
        got = list(CMSRawStage(batch_size=size).pre_input(iter(s) for s in sources))
        t.same(got, [records[i:i + size] for i in range(0, n, size)], f"raw batches of {size}")
        pipe = Pipeline(batch_size=size)
        got = list(pipe.gen_batches(iter(records), "x"))
        t.same(got, [records[i:i + size] for i in range(0, n, size)], f"pipeline batches of {size}")
        t.sig(kind, size, n, len(sources))
        return
    # a pipeline of one to three stages
    tags = ["a", "b", "c"][:rng.choice([1, 2, 2, 3])]
    size = rng.choice([1, 2, 5, 42000])
    if len(records) > 17 and size == 1:
        size = 3
    spark, keep = rng.random() < .4, rng.random() < .5
    first = split(rng, records, [4, 9] if n > 5 else [1, 2, 3])
    folder = os.path.join(t.dir, "cache")
    os.makedirs(folder)

    class Source(CMSResourceManager):
        def get(self):
            return iter(first)
    source = Source("2018 1 31", 3, resource={"local": {"folder": folder}})
    made = [make_stage(log, tag) for tag in tags]
    pipe = Pipeline("data", made, source, batch_size=size)
    t.check(pipe.run(save_stage=keep, use_spark=spark) is pipe, "run gives the pipeline")
    now, batches = records, first
    for i, tag in enumerate(tags):
        if i:
            # outputs arrive in any order: judge the sizes of the batches instead of the batches
            ends = [x for x in read_log(log) if x["tag"] == tag and x["what"] == "end"]
            t.check(len(ends) == -(-len(now) // size), "%d batches of %d for %d records", len(ends), size, len(now))
        else:
            check_log(t, log, tag, batches, None)
        now = expanded(now, tag)
        if keep:
            name = os.path.join(folder, "cache", f"dataset_y2018-m1-d31_ws3_stage-{tag}.json.gz")
            same_records(t, DataFile(name), now, f"saved output of stage {tag}")
            t.count("saved stage")
    same_records(t, pipe.result, now, "result of the pipeline")
    t.equal(pipe.stats["result"]["len"], len(now), "number of results")
    t.equal(sorted(pipe.stats["time"]["stages"]), sorted(tags), "timed stages")
    pipe.save(os.path.join(t.dir, "out"))
    same_records(t, DataFile(os.path.join(t.dir, "out", "data.json.gz")), now, "saved result of the pipeline")
    with open(os.path.join(t.dir, "out", "data.stats.json")) as f:
        t.equal(json.load(f)["result"]["len"], len(now), "saved number of results")
    t.count("pipeline")
    t.count("result file")
    t.sig(kind, spark, keep, len(tags), size, n)


# ---- feature records -----------------------------------------------------------------

RAW = ["FileName", "Application", "ApplicationVersion", "BlockId", "BlockName", "ExeCPU", "FileType", "FinishedTimeStamp",
       "GenericType", "GridName", "InputCollection", "InputSE", "IsParentFile", "JobExecExitCode", "JobExecExitTimeStamp", "JobId",
       "JobMonitorId", "JobType", "LumiRanges", "NCores", "NEventsPerJob", "NEvProc", "NEvReq", "NewGenericType", "NewType",
       "NTaskSteps", "ProtocolUsed", "SchedulerJobIdV2", "SchedulerName", "SiteName", "StartedRunningTimeStamp", "StrippedBlocks",
       "StrippedFiles", "SubmissionTool", "SuccessFlag", "TargetCE", "TaskId", "TaskJobId", "TaskMonitorId", "Type", "UserId",
       "ValidityFlag", "WNHostName", "WrapCPU", "WrapWC"]
NUMERIC = {"ExeCPU": float, "WrapCPU": float, "WrapWC": float, "NCores": int, "JobId": int, "NEvProc": int, "UserId": int,
           "FinishedTimeStamp": int, "StartedRunningTimeStamp": int, "BlockId": int}


def file_name(rng, pool):
    r = rng.random()
    if r < .08:
        return "unknown"
    if r < .16:
        return rng.choice(["/store", "/store/data", "/store/mc/Run", "", "/", "a"])
    store = rng.choice(["data", "data", "mc", "mc", "user", "group", "hidata"])
    name = "/store/%s/Run%d/%s/%s" % (store, rng.randrange(pool), rng.choice(["QCD", "Double-EG", "é"]), rng.choice(["AOD", "MINIAOD"]))
    if rng.random() < .7:
        name += "/v%d/%d.root" % (rng.randrange(3), rng.randrange(1000))
    return name.replace("/", "//") if rng.random() < .05 else name


def raw_record(rng, pool=3):
    out = {}
    for name in RAW:
        kind = NUMERIC.get(name, str)
        out[name] = rng.randrange(2**34) if kind is int else rng.random() * 1e5 if kind is float else rng.choice(["", "x", "T2_IT", "à"])
    out["FileName"] = file_name(rng, pool)
    out["Type"] = rng.choice(["analysis", "analysis", "analysis", "production", "test", "Analysis", ""])
    out["WrapCPU"] = rng.choice([0.0, 1.5, 10.0, float(rng.randrange(1000))])
    if rng.random() < .3:
        out["extra"] = "not a feature"
    return out


def features_of(name):
    parts = [p for p in name.split("/") if p]
    if name == "unknown" or len(parts) < 5:
        return None
    return dict(zip(("store_type", "campaign", "process", "file_type"), parts[1:5]))


def id_of(features):
    return hashlib.blake2s(json.dumps([[k, features[k]] for k in sorted(features)]).encode()).hexdigest()


@register("C43", quick=12000, deep=60000, timeout=60,
          rule="A case is a set of records extracted from generated job records; a situation is (kind of record, validity, number of "
               "records, way of copying).",
          need=["raw valid", "raw invalid", "popularity valid", "popularity invalid", "no features", "merged", "pickled", "same id"])
def feature_records(t):
    from DataManager.collector.datafeatures.extractor import CMSDataPopularity, CMSDataPopularityRaw, CMSRecordTest0
    rng = t.rng
    ids = {}
    for _ in range(rng.randrange(1, 8)):
        data = raw_record(rng, 2)
        keep = json.dumps(data)
        raw = CMSDataPopularityRaw(data)
        valid = data["Type"] == "analysis"
        t.equal(bool(raw), valid, f"validity of a raw record of type {data['Type']!r}")
        t.equal(raw.valid, valid, "validity")
        t.count("raw valid" if valid else "raw invalid")
        feats = {name: data[name] for name in RAW} if valid else {}
        want = {"features": feats, "id": data["FileName"], "valid": valid}
        t.same(raw.to_dict(), want, "raw record")
        if valid:
            name = rng.choice(RAW)
            t.same(getattr(raw, name), data[name], "attribute " + name)
            t.same(raw.feature_list, sorted(feats.items()), "feature list")
            t.same(list(raw.features), sorted(feats.items()), "features")
            t.same(raw.feature_dict, feats, "feature dictionary")
            t.same(raw.feature, feats, "features by name")
        again = pickle.loads(pickle.dumps(raw))
        t.same(again.to_dict(), want, "raw record after pickling")
        t.same(CMSDataPopularityRaw().loads(raw.dumps()).to_dict(), want, "raw record after dumps and loads")
        t.equal(bool(again), valid, "validity after pickling")
        t.raises(AttributeError, lambda: raw.NoSuchFeature, "an unknown attribute")

        pop = CMSDataPopularity(data)
        feats = features_of(data["FileName"])
        valid = feats is not None and feats["store_type"] in ("data", "mc")
        t.equal(bool(pop), valid, f"validity of {data['FileName']!r}")
        t.count("popularity valid" if valid else "popularity invalid")
        if feats is None:
            t.count("no features")
        want = {"data": data, "features": feats or {}, "id": id_of(feats) if valid else None, "valid": valid}
        t.same(pop.to_dict(), want, f"record of {data['FileName']!r}")
        t.same(pickle.loads(pickle.dumps(pop)).to_dict(), want, "record after pickling")
        t.equal(bool(pickle.loads(pickle.dumps(pop))), valid, "validity after pickling")
        t.same(pop.WrapCPU, data["WrapCPU"], "attribute of the data")
        t.raises(AttributeError, lambda: pop.NoSuchFeature, "an unknown attribute")
        t.equal(json.dumps(data), keep, "extraction changed its data")
        if feats:
            if id_of(feats) in ids:
                t.count("same id")
            ids.setdefault(pop.record_id, feats)
            t.same(ids[pop.record_id], feats, "two feature sets with one id")
            t.equal(pop.record_id, id_of(feats), "id of a feature set")
            t.same(pop.features2array().tolist(), [feats[k] for k in sorted(feats)], "feature values")
            t.same(json.loads(repr(pop)), feats, "features as text")
            grown = CMSRecordTest0(pop)
            if rng.random() < .5:
                grown.record_id
            name = rng.choice(["store_type", "zzz", "a"])
            grown.add_feature(name, "other")
            t.equal(grown.record_id, id_of(dict(feats, **{name: "other"})), "id after another feature")
            one, two = CMSRecordTest0(pop), CMSRecordTest0({"features": feats, "data": data})
            for rec in (one, two):
                t.equal(rec.record_id, id_of(feats), "id of a test0 record")
                t.same(rec.to_dict(), {"tot_wrap_cpu": data["WrapCPU"], "tot_requests": 1, "features": feats, "class": "UNKNOWN",
                                       "id": id_of(feats)}, "test0 record")
            k = rng.randrange(5)
            total = one
            for _ in range(k):
                other = CMSRecordTest0({"features": feats, "data": {"WrapCPU": 2.5}})
                if rng.random() < .5:
                    total += other
                else:
                    total = total + other
                t.same((other.tot_requests, other.tot_wrap_cpu), (1, 2.5), "the added record changed")
            if k:
                t.count("merged")
            t.same((total.tot_requests, total.tot_wrap_cpu), (1 + k, data["WrapCPU"] + 2.5 * k), f"sum of {k + 1} records")
            t.near(total.score, (data["WrapCPU"] + 2.5 * k) / (1 + k), "score")
            cls = rng.choice(["good", "bad"])
            total.set_class(cls)
            t.equal(total.record_class, cls, "class")
            t.raises(AssertionError, lambda: total.set_class("ugly"), "an unknown class")
            want = {"tot_wrap_cpu": data["WrapCPU"] + 2.5 * k, "tot_requests": 1 + k, "features": feats, "class": cls, "id": id_of(feats)}
            for copy in (pickle.loads(pickle.dumps(total)), CMSRecordTest0().load(json.loads(total.dumps()))):
                t.same(copy.to_dict(), want, "copy of a test0 record")
                t.equal(copy.record_id, id_of(feats), "id of the copy")
                t.near(copy.score, total.score, "score of the copy")
            t.count("pickled")
        t.sig(valid, data["Type"], len([p for p in data["FileName"].split("/") if p]), (feats or {}).get("store_type"), len(ids))
    t.sample({"ids": len(ids), "last": data["FileName"]})


@register("C44", quick=1600, deep=8000, timeout=90,
          rule="A case is the raw, featured and test0 stages run on generated job records, alone or as one pipeline; a situation is (way, "
               "number of records, feature sets, classes).",
          need=["test0", "merged across batches", "good", "bad", "featured", "raw", "whole pipeline", "spark"])
def datasets(t):
    from DataManager.collector.dataset.generator import Pipeline
    from DataManager.collector.dataset.resource import Resource
    from DataManager.collector.dataset.stage import CMSFeaturedStage, CMSRawStage, CMSRecordTest0Stage
    import pyspark
    rng = t.rng
    pyspark.SparkContext.parallelism = rng.choice([1, 2, 4])
    spark = rng.random() < .4
    if spark:
        t.count("spark")
    n = rng.choice([3, 8, 30, 60])
    data = [raw_record(rng, rng.choice([1, 3])) for _ in range(n)]
    for d in data:
        d.pop("extra", None)
    # one record survives every stage
    data[rng.randrange(n)].update(FileName="/store/data/R/P/AOD/1.root", Type="analysis")

    raws = [{"features": d, "id": d["FileName"], "valid": True} for d in data if d["Type"] == "analysis"]

    def feat(recs):
        out = []
        for r in recs:
            f = features_of(r["features"]["FileName"])
            if f and f["store_type"] in ("data", "mc"):
                out.append({"data": r["features"], "features": f, "id": id_of(f), "valid": True})
        return out
    feats = feat(raws)

    def judge(got, recs, what):
        sums = {}
        for r in recs:
            cpu, k, _ = sums.get(id_of(r["features"]), (0.0, 0, None))
            sums[id_of(r["features"])] = (cpu + r["data"]["WrapCPU"], k + 1, r["features"])
        t.check(len(got) == len(sums) == len({g["id"] for g in got}), "%s: %d records for %d feature sets", what, len(got), len(sums))
        mean = sum(c / k for c, k, _ in sums.values()) / len(sums)
        for g in got:
            t.check(g["id"] in sums, "%s: unknown id %s", what, g["id"])
            cpu, k, f = sums[g["id"]]
            t.same(g["features"], f, what + ": features")
            t.equal(g["tot_requests"], k, what + ": requests")
            t.near(g["tot_wrap_cpu"], cpu, what + ": wrap CPU")
            if abs(cpu / k - mean) > 1e-9 * max(1, mean):
                t.equal(g["class"], "good" if cpu / k >= mean else "bad", f"{what}: class of score {cpu / k} with average {mean}")
            else:
                t.check(g["class"] in ("good", "bad") and (len(sums) > 1 or g["class"] == "good"), "%s: class %r", what, g["class"])
            t.count(g["class"])
            if k > 1:
                t.count("merged across batches")
        t.sig(what, len(recs), len(sums), sum(g["class"] == "good" for g in got))
    kind = rng.choice(["test0", "featured", "raw", "pipeline"])
    sizes = [1, 3] if n < 10 else [10, 25]
    if kind == "test0":
        judge(list(CMSRecordTest0Stage().run(split(rng, feats, sizes), use_spark=spark)), feats, "test0 stage")
        t.count("test0")
    elif kind == "featured":
        same_records(t, CMSFeaturedStage().run(split(rng, raws, sizes), use_spark=spark), feats, "featured stage")
        t.count("featured")
    elif kind == "raw":
        stage = CMSRawStage(batch_size=rng.choice(sizes))
        same_records(t, stage.run((iter(s) for s in split(rng, data, [2, 20])), use_spark=spark), raws, "raw stage")
        t.count("raw")
    else:
        class Source(Resource):
            def get(self):
                return iter(split(rng, data, [2, 20]))
        pipe = Pipeline("x", [CMSRawStage(batch_size=rng.choice(sizes)), CMSFeaturedStage(), CMSRecordTest0Stage()], Source(),
                        batch_size=rng.choice(sizes))
        judge(list(pipe.run(use_spark=spark).result), feats, "whole pipeline")
        t.equal(pipe.stats["result"]["len"], len(pipe.result), "number of results")
        t.count("whole pipeline")
    t.sample({"kind": kind, "records": n, "raw": len(raws), "featured": len(feats)})


# ---- sources: windows of days, the local and the remote file system ------------------


class Webhdfs(BaseHTTPRequestHandler):
    """A WebHDFS/HttpFS endpoint over a dictionary of files, with a log of what it was asked."""
    protocol_version = "HTTP/1.1"

    def log_message(self, *args):
        pass

    def answer(self, status, obj, raw=False):
        body = obj if raw else json.dumps(obj).encode()
        self.send_response(status)
        self.send_header("Content-Length", str(len(body)))
        self.end_headers()
        self.wfile.write(body)

    def handle_one(self):
        srv = self.server
        parts = urlsplit(self.path)
        query = {k: v[0] for k, v in parse_qs(parts.query, keep_blank_values=True).items()}
        body = self.rfile.read(int(self.headers.get("Content-Length") or 0))
        name = unquote(parts.path)
        op = query.get("op")
        srv.asked.append((self.command, op, name, query, self.headers.get("Authorization"), body))
        if not name.startswith("/webhdfs/v1/"):
            return self.answer(404, {"RemoteException": "no such service"})
        name = name[len("/webhdfs/v1"):]
        if srv.fail and srv.fail == (op, "data" in query):
            return self.answer(srv.status, {"RemoteException": {"message": "planned"}})
        if self.command == "GET" and op == "LISTSTATUS":
            folder = name.rstrip("/")
            names = [f for f in srv.files if f.rsplit("/", 1)[0] == folder]
            if not names and folder not in srv.folders:
                return self.answer(404, {"RemoteException": {"message": "not found"}})
            return self.answer(200, {"FileStatuses": {"FileStatus": [
                {"type": "FILE", "pathSuffix": f.rsplit("/", 1)[1], "length": len(srv.files[f])} for f in names]}})
        if self.command == "GET" and op == "OPEN":
            if name not in srv.files:
                return self.answer(404, {"RemoteException": {"message": "not found"}})
            return self.answer(200, srv.files[name], raw=True)
        if self.command == "PUT" and op == "MKDIRS":
            srv.folders.add(name)
            return self.answer(200, {"boolean": True})
        if self.command == "PUT" and op == "CREATE":
            if name in srv.files and query.get("overwrite", "").lower() != "true":
                return self.answer(403, {"RemoteException": {"message": "exists"}})
            if "data" not in query:
                return self.answer(srv.first, {"Location": "here"})
            srv.files[name] = body
            return self.answer(201, {})
        if self.command == "DELETE" and op == "DELETE":
            gone = [f for f in srv.files if f == name or f.startswith(name.rstrip("/") + "/")]
            for f in gone:
                del srv.files[f]
            return self.answer(200, {"boolean": bool(gone)})
        return self.answer(400, {"RemoteException": {"message": "bad request"}})

    do_GET = do_PUT = do_DELETE = do_POST = handle_one


class Service:
    def __init__(self, handler=Webhdfs, **state):
        self.server = ThreadingHTTPServer(("127.0.0.1", 0), handler)
        self.server.daemon_threads = True
        for k, v in dict(dict(asked=[], files={}, folders=set(), fail=None, status=500, first=200), **state).items():
            setattr(self.server, k, v)
        self.url = "http://127.0.0.1:%d" % self.server.server_address[1]
        self.thread = threading.Thread(target=self.server.serve_forever, kwargs={"poll_interval": .01}, daemon=True)

    def __enter__(self):
        self.thread.start()
        return self

    def __exit__(self, *_):
        self.server.shutdown()
        self.server.server_close()
        self.thread.join()


def days(start, size, step=1):
    return [start + timedelta(days=i) for i in range(0, size, step)]


def avro_bytes(records):
    from DataManager.collector.datafile.avro import AvroDataFileWriter
    buf = io.BytesIO()
    writer = AvroDataFileWriter(buf)
    writer.append(records)
    return writer.raw_data


@register("C45", quick=4800, deep=40000, timeout=60,
          rule="A case is one window of days, one data source over such a window, or one exchange with a WebHDFS endpoint on the "
               "loopback; a situation is (kind, days or operation, step, files, outcome).",
          need=["window", "next window", "local source", "remote source", "several files a day", "saved locally", "saved remotely",
                "dataset source", "open", "create", "delete", "mkdirs", "refused", "missing day", "leap day", "year end"])
def sources(t):
    from DataManager.agent.api import HTTPFS
    from DataManager.collector.api import DataFile
    from DataManager.collector.datafile.json import JSONDataFileWriter
    from DataManager.collector.dataset.resource import CMSDatasetResourceManager, CMSResourceManager
    from DataManager.collector.dataset.utils import gen_window_dates
    rng = t.rng
    kind = rng.choice(["window", "window", "local", "remote", "dataset", "httpfs", "httpfs", "save"])
    start = rng.choice([date(2018, 1, 1), date(2018, 12, 28), date(2020, 2, 26), date(2019, 2, 26)]) + timedelta(days=rng.randrange(6))
    if rng.random() < .3:
        start = date(2000, 1, 1) + timedelta(days=rng.randrange(9000))
    if kind == "window":
        size, step = rng.choice([0, 1, 2, 7, 30, 366, 800]), rng.choice([1, 1, 1, 2, 3, 7, 40])
        for following in (False, True):
            begin = start + timedelta(days=size) if following else start
            want = [(d.year, d.month, d.day) for d in days(begin, size, step)]
            got = list(gen_window_dates(start.year, start.month, start.day, size, step=step, next_window=following))
            t.same(got, want, f"{'next ' if following else ''}window of {size} days every {step} from {start}")
            t.count("next window" if following else "window")
            if (start.year % 4 == 0) and any(d[1:] == (2, 29) for d in got):
                t.count("leap day")
            if len({d[0] for d in got}) > 1:
                t.count("year end")
        t.sig(kind, size, step, start.month, start.day)
        return

    def day_records(d, k=0):
        return [{"day": d.isoformat(), "file": k, "n": i, "pad": "é" * rng.randrange(3)} for i in range(rng.randrange(1, 5))]
    if kind == "local":
        size = rng.choice([1, 2, 5, 9])
        folder = os.path.join(t.dir, "data")
        want = []
        for d in days(start - timedelta(days=1), size + 2):
            where = os.path.join(folder, f"year={d.year}", f"month={d.month}", f"day={d.day}")
            os.makedirs(where)
            recs = day_records(d)
            with open(os.path.join(where, "part-m-00000.avro"), "wb") as f:
                f.write(avro_bytes(recs))
            if start <= d < start + timedelta(days=size):
                want.append(recs)
        src = CMSResourceManager(f"{start.year} {start.month} {start.day}", size, resource={"local": {"folder": folder}})
        t.equal(src.type, "local", "type of a source")
        got = [list(f) for f in src.get()]
        t.same(got, want, f"records of {size} days from {start}")
        t.same([list(f) for f in src.get()], want, "records of the same source read again")
        d = start + timedelta(days=rng.randrange(size))
        os.remove(os.path.join(folder, f"year={d.year}", f"month={d.month}", f"day={d.day}", "part-m-00000.avro"))
        t.raises(FileNotFoundError, lambda: list(src.get()), "a missing day")
        t.count("missing day")
        t.count("local source")
        t.sample({"source": "local", "days": size, "from": start.isoformat(), "records": want[:1]})
        t.sig(kind, size, start.month, start.day)
        return
    if kind == "remote":
        size = rng.choice([1, 2, 5, 9])
        base = rng.choice([None, "/store/", "/a/b/"])
        with Service() as srv:
            want, files = [], srv.server.files
            for d in days(start - timedelta(days=1), size + 2):
                where = f"{base or '/project/awg/cms/jm-data-popularity/avro-snappy/'}year={d.year}/month={d.month}/day={d.day}"
                srv.server.folders.add(where)
                k = rng.choice([0, 1, 1, 2, 3])
                for i in range(k):
                    recs = day_records(d, i)
                    files[f"{where}/part-m-{i:05}.avro"] = avro_bytes(recs)
                    if start <= d < start + timedelta(days=size):
                        want.append(recs)
                        if k > 1:
                            t.count("several files a day")
            conf = {"url": srv.url, "user": "me", "password": "pass word"}
            if base:
                conf["base_path"] = base
            src = CMSResourceManager(f"{start.year} {start.month} {start.day}", size, resource={"httpfs": conf})
            t.equal(src.type, "httpfs", "type of a source")
            t.same([list(f) for f in src.get()], want, f"records of {size} days from {start}")
            t.sample({"source": "remote", "days": size, "from": start.isoformat(), "requests": [(a[0], a[1], a[2]) for a in srv.server.asked[:4]]})
            t.check(all(a[4] == basic("me", "pass word") for a in srv.server.asked), "a request without the credentials")
            if rng.random() < .5:
                srv.server.fail = rng.choice([("OPEN", False), ("LISTSTATUS", False)])
                if srv.server.fail[0] == "LISTSTATUS" or want:
                    t.raises(Exception, lambda: list(src.get()), f"a failed {srv.server.fail[0]}")
                    t.count("refused")
        t.count("remote source")
        t.sig(kind, size, len(want), base)
        return
    if kind == "dataset":
        recs = day_records(start) * rng.choice([1, 3, 9])
        name = os.path.join(t.dir, "in.json.gz")
        with JSONDataFileWriter(name) as out:
            out.append(recs)
        size = rng.choice([1, 2, 3, len(recs), len(recs) + 1])
        src = CMSDatasetResourceManager(name, batch_size=size)
        t.same(list(src.get()), [recs[i:i + size] for i in range(0, len(recs), size)], f"batches of {size} of a dataset")
        # whatever is saved reads back
        out_dir = os.path.join(t.dir, "x", "y")
        src.set(iter(recs), "copy.json.gz", out_dir)
        t.same(list(DataFile(os.path.join(out_dir, "copy.json.gz"))), recs, "a saved dataset")
        t.count("dataset source")
        t.sig(kind, size, len(recs))
        return
    if kind == "save":
        recs = [dict(r, x=rng.random()) for r in day_records(start)] * rng.choice([1, 1, 30])
        stage = rng.choice(["", "raw", "é"])
        name = f"dataset_y{start.year}-m{start.month}-d{start.day}_ws3_stage-{stage}.json.gz"
        when = f"{start.year} {start.month} {start.day}"
        if rng.random() < .5:
            src = CMSResourceManager(when, 3, resource={"local": {"folder": t.dir}})
            src.set([{"old": 1}] * rng.randrange(100), stage_name=stage) if rng.random() < .5 else None
            where = rng.choice([{}, {"out_dir": "else"}])
            src.set(recs, stage_name=stage, **where)
            t.same(list(DataFile(os.path.join(t.dir, where.get("out_dir", "cache"), name))), recs, "dataset saved locally")
            t.count("saved locally")
        else:
            with Service() as srv:
                src = CMSResourceManager(when, 3, resource={"httpfs": {"url": srv.url}})
                srv.server.files["/cache/" + name] = b"old" * rng.randrange(2000)
                srv.server.first = rng.choice([200, 201, 307])
                src.set(recs, stage_name=stage)
                t.equal(list(srv.server.files), ["/cache/" + name], "files in the remote store")
                with open("back.json.gz", "wb") as f:
                    f.write(srv.server.files["/cache/" + name])
                t.same(list(DataFile("back.json.gz")), recs, "dataset saved remotely")
                t.count("saved remotely")
        t.sig(kind, len(recs), stage)
        return
    # single operations of the remote file system
    ops = rng.sample(["open", "create", "list", "delete", "mkdirs"], rng.randrange(1, 6))
    with Service() as srv:
        user, password = rng.choice([(None, None), ("me", "secret"), ("me", "a:b")])
        hadoop = rng.choice(["root", "hadoop"])
        fs = HTTPFS(srv.url, user, password, **({"hadoop_user": hadoop} if hadoop != "root" else {}))
        files = srv.server.files
        srv.server.folders.add("/dir")
        for i in range(rng.randrange(1, 5)):
            files[f"/dir/{rng.choice(['a b', 'c', 'é', 'd=1'])}{i}"] = rng.randbytes(rng.choice([0, 1, 255, 256, 257, 5000]))
        for op in ops:
            before = dict(files)
            srv.server.fail, srv.server.status = None, rng.choice([400, 401, 403, 404, 500, 503])
            refuse = rng.random() < .3
            at = len(srv.server.asked)
            if not files:
                break
            name = rng.choice(sorted(files))
            if op == "open":
                chunk = rng.choice([{}, {"chunk_size": 1000}, {"chunk_size": 7}])
                if refuse:
                    srv.server.fail = ("OPEN", False)
                    t.raises(Exception, lambda: fs.open(name), "opening answered with %d" % srv.server.status)
                else:
                    t.same(fs.open(name, **chunk).read(), files[name], f"content of {name}")
            elif op == "list":
                if refuse:
                    srv.server.fail = ("LISTSTATUS", False)
                    t.raises(Exception, lambda: list(fs.liststatus("/dir")), "listing answered with %d" % srv.server.status)
                else:
                    t.same(list(fs.liststatus("/dir", print_list=rng.random() < .5)),
                           [("FILE", f.rsplit("/", 1)[1], f) for f in files if f.startswith("/dir/")], "list of a folder")
            elif op == "mkdirs":
                if refuse:
                    srv.server.fail = ("MKDIRS", False)
                    t.raises(Exception, lambda: fs.mkdirs("/new/one"), "making folders answered with %d" % srv.server.status)
                    t.check("/new/one" not in srv.server.folders, "folder made")
                else:
                    t.equal(fs.mkdirs("/new/one"), True, "making folders")
                    t.check("/new/one" in srv.server.folders, "no folder made")
            elif op == "delete":
                name = rng.choice([name, "/dir", "/none"])
                if refuse:
                    srv.server.fail = ("DELETE", False)
                    t.raises(Exception, lambda: fs.delete(name), "deleting answered with %d" % srv.server.status)
                else:
                    gone = [f for f in files if f == name or f.startswith(name + "/")]
                    t.equal(fs.delete(name), bool(gone), f"deleting {name}")
                    for f in gone:
                        del before[f]
            else:
                name = rng.choice([name, "/new/file"])
                content = rng.randbytes(rng.choice([0, 1, 300, 70000]))
                with open(os.path.join(t.dir, "up"), "wb") as f:
                    f.write(content)
                data = rng.choice([os.path.join(t.dir, "up"), io.BytesIO(content)])
                over = rng.random() < .5
                srv.server.first = rng.choice([200, 201, 307])
                if refuse:
                    srv.server.fail = ("CREATE", rng.random() < .5)
                    t.raises(Exception, lambda: fs.create(name, data, overwrite=over), f"creating answered with {srv.server.status} {srv.server.fail}")
                elif name in files and not over:
                    t.raises(Exception, lambda: fs.create(name, data), "creating an existing file")
                    t.count("refused")
                elif rng.random() < .1:
                    t.raises(Exception, lambda: fs.create(name, os.path.join(t.dir, "nothing"), overwrite=True), "uploading nothing")
                    files.clear(), files.update(before)
                else:
                    t.equal(fs.create(name, data, overwrite=over), True, "creating a file")
                    before[name] = content
            t.same({k: v for k, v in sorted(files.items())}, dict(sorted(before.items())), f"remote files after {op}")
            asked = srv.server.asked[at:]
            t.check(asked and all(a[3].get("user.name") == hadoop for a in asked), "a request without the user")
            t.check(all(a[4] == (basic(user, password) if user else None) for a in asked), "a request with wrong credentials")
            t.count("refused" if refuse else op)
            t.sig(op, refuse, user, srv.server.first, len(files.get(name, b"")))


def basic(user, password):
    import base64
    return "Basic " + base64.b64encode(f"{user}:{password}".encode()).decode()
