"""The configuration generators (C61) and the data preparation scripts (C62)."""
import contextlib
import csv
import gzip
import io
import itertools
import json
import os
import runpy
import sys
import types
from datetime import date, timedelta

import pcheck
from pcheck import Fail, register

REPO = pcheck.REPO


def script(path, *args):
    """Runs a script of the repository; gives its exit status and its output."""
    out, status, argv = io.StringIO(), 0, sys.argv
    sys.argv = [os.path.join(REPO, path)] + [str(a) for a in args]
    try:
        with contextlib.redirect_stdout(out):
            runpy.run_path(sys.argv[0], run_name="__main__")
    except SystemExit as err:
        status = 0 if err.code is None else err.code
    finally:
        sys.argv = argv
    return status, out.getvalue()


# -- C61 ---------------------------------------------------------------------
def flat(obj, prefix=""):
    if isinstance(obj, dict):
        out = {}
        for k, v in obj.items():
            out.update(flat(v, prefix + str(k) + "."))
        return out
    return {prefix[:-1]: obj}


def read_configs(t, folder):
    import yaml
    loader = getattr(yaml, "CSafeLoader", yaml.SafeLoader)
    out = []
    for name in sorted(os.listdir(folder)):
        with open(os.path.join(folder, name)) as f:
            conf = flat(yaml.load(f, Loader=loader))
        t.check(name.endswith(".yml"), "%s is no configuration file name", name)
        out.append((name, conf))
    return out


STEP = [(i, i + 4) for i in range(0, 52, 4)]
WINDOWS = sorted(set(STEP + [(0, 12), (12, 24), (24, 36), (36, 48), (48, 52), (0, 16), (16, 32), (32, 48)]))
RATES = [.1, .001, .0001]


def wanted(maps):
    """Every configuration asked for, as (settings) -> number of files that may hold it."""
    out = set()
    base = itertools.product(["it", "us"], [True, False], [100, 200], WINDOWS)
    for region, marks, size, window in base:
        common = [("sim.region", region), ("sim.cache.watermarks", marks), ("sim.cache.size.value", size), ("sim.window.start", window[0]), ("sim.window.stop", window[1])]

        def put(**more):
            out.add(frozenset(common + [("sim." + k.replace("__", "."), v) for k, v in more.items()]))
        for kind in ("lru", "lfu", "sizeBig", "sizeSmall"):
            put(cache__type=kind)
        for rate in RATES:
            put(cache__type="aiRL", ai__rl__type="SCDL", ai__rl__epsilon__decay=rate, ai__rl__addition__featuremap=maps[0])
            both = dict(cache__type="aiRL", ai__rl__type="SCDL2", ai__rl__addition__epsilon__decay=rate, ai__rl__addition__featuremap=maps[1], ai__rl__eviction__featuremap=maps[2])
            put(ai__rl__eviction__type="NoEviction", **both)
            for second in RATES:
                put(ai__rl__eviction__type="onFree", ai__rl__eviction__epsilon__decay=second, **both)
                for k in (1024, 2048, 4096):
                    put(ai__rl__eviction__type="onK", ai__rl__eviction__epsilon__decay=second, ai__rl__eviction__k=k, **both)
    return out


FIXED = {"sim.type": "normal", "sim.cache.size.unit": "T", "sim.cache.bandwidth.value": 10, "sim.cache.bandwidth.redirect": True, "sim.overwrite": True}


@register("C61", quick=6, deep=24, timeout=300, rule="A case runs one configuration generator; a situation is a configuration's settings.",
          need=["test configurations", "weight function configurations", "old configuration removed", "no old configuration"])
def configs(t):
    rng = t.rng
    os.chdir(t.dir)
    if t.case % 3 == 2:
        return weight_configs(t)
    data = os.path.join(t.dir, rng.choice(["data", "some/data", "d-1"]))
    os.makedirs(data)
    maps = [rng.choice(["", "map.json", "maps/a.json.gz"]), rng.choice(["add.json", "b/add2.json"]), rng.choice(["evict.json", "b/e2.json"])]
    args = [data]
    for name, value in zip(("--featureMap", "--additionFeatureMap", "--evictionFeatureMap"), maps):
        if value:
            args += [name, value]
    if rng.random() < .5 or t.case == 0:
        os.mkdir("configs")
        with open("configs/zz_old.yml", "w") as f:
            f.write("sim:\n  data: none\n")
        t.count("old configuration removed")
    else:
        t.count("no old configuration")
    status, _ = script("scripts/tests/generator.py", *args)
    t.equal(status, 0, "exit status of the generator")
    maps = [m or None for m in maps]
    want, found, places, shared = wanted(maps), set(), {}, None
    for name, conf in read_configs(t, "configs"):
        t.count("test configurations")
        t.equal(conf.get("sim.data"), "%s/source2018_numeric_%s_with_avro_order" % (data, conf.get("sim.region")), "data of " + name)
        for k, v in FIXED.items():
            t.equal(conf.get(k), v, "%s of %s" % (k, name))
        ai = conf.get("sim.cache.type") == "aiRL"
        if ai:
            two = conf.get("sim.ai.rl.type") == "SCDL2"
            t.equal(conf.get("sim.ai.rl.epsilon.unleash"), False, "unleash of " + name)
        else:
            t.check(not any(k.startswith("sim.ai") for k in conf), "%s has learning settings: %s", name, conf)
        keys = [k for k in conf if k not in FIXED and k not in ("sim.data", "sim.outputFolder", "sim.ai.rl.epsilon.unleash")]
        if ai and two and conf.get("sim.ai.rl.eviction.type") != "onK":
            keys = [k for k in keys if k != "sim.ai.rl.eviction.k"]
            if conf.get("sim.ai.rl.eviction.type") == "NoEviction":
                keys = [k for k in keys if k != "sim.ai.rl.eviction.epsilon.decay"]
        what = frozenset((k, conf[k]) for k in keys)
        if what not in want:
            raise Fail("%s is not a configuration asked for: %s" % (name, sorted(what)))
        found.add(what)
        # where the simulator writes the results of this configuration
        kind = conf["sim.cache.type"]
        if ai:
            kind += "_" + conf["sim.ai.rl.type"] + ("-" + str(conf["sim.ai.rl.eviction.type"]) if two else "")
        place = (os.path.normpath(str(conf["sim.outputFolder"])), kind, conf["sim.cache.size.value"], conf["sim.region"])
        other = places.setdefault(place, (what, name))
        if other[0] != what:
            clash = "%s and %s are different configurations that write their results in the same folder %s" % (name, other[1], place)
            if {k for k, _ in other[0] ^ what} <= {"sim.ai.rl.eviction.epsilon.decay", "sim.ai.rl.eviction.k"}:
                shared = clash
            else:
                raise Fail(clash)
        t.sig(sorted(map(str, what)))
    missing = want - found
    t.check(not missing, "%d configurations are missing, such as %s", len(missing), sorted(next(iter(missing), []), key=str))
    t.sample({"generator": "tests", "configurations": len(found), "folders": len(places)})
    if shared:
        raise Fail(shared, "eviction-settings-share-folder")


VALUES = [0, .33, .5, .67, 1, 2, 4, 8, 16, 32, 64]


def weight_configs(t):
    status, _ = script("config/simulations/weight_function_italian_dataset/100T/make_configs.py")
    t.equal(status, 0, "exit status of the generator")
    want = set(itertools.product(["FuncAdditive", "FuncAdditiveExp", "FuncMultiplicative"], VALUES, VALUES, VALUES))
    found, places = set(), {}
    fixed = dict(FIXED, **{"sim.overwrite": False, "sim.region": "it", "sim.window.start": 0, "sim.window.stop": 52, "sim.cache.type": "weightFunLRU", "sim.cache.watermarks": True,
                           "sim.cache.size.value": 100, "sim.cache.stats.maxNumDayDiff": 14., "sim.cache.stats.deltaDaysStep": 7.})
    for name, conf in read_configs(t, "."):
        t.count("weight function configurations")
        for k, v in fixed.items():
            t.equal(conf.get(k), v, "%s of %s" % (k, name))
        what = tuple(conf.get("sim.weightfunc." + k) for k in ("name", "alpha", "beta", "gamma"))
        t.check(what in want, "%s is not a configuration asked for: %s", name, what)
        t.check(what not in found, "%s is written twice", what)
        found.add(what)
        place = (conf["sim.outputFolder"], what[0]) + tuple("%.2f" % v for v in what[1:])
        t.check(place not in places, "%s and %s write their results in the same folder", name, places.get(place))
        places[place] = name
        t.sig(what)
    t.check(found == want, "%d configurations are missing, such as %s", len(want - found), next(iter(want - found), None))
    t.sample({"generator": "weight functions", "configurations": len(found)})


# -- C62 ---------------------------------------------------------------------
STORE, CALLS = {}, []
REFUSED = set()


class Minio(object):
    """An object store that keeps the objects in memory."""
    def __init__(self, endpoint, access_key=None, secret_key=None, **_):
        CALLS.append(("connect", endpoint, access_key, secret_key))

    def fget_object(self, bucket_name, object_name, file_path, **_):
        if (bucket_name, object_name) not in STORE:
            raise sys.modules["minio.error"].ResponseError("no such object")
        CALLS.append(("get", bucket_name, object_name))
        with open(file_path, "wb") as f:
            f.write(STORE[bucket_name, object_name])

    def fput_object(self, bucket_name, object_name, file_path, **_):
        CALLS.append(("put", bucket_name, object_name))
        if (bucket_name, object_name) in REFUSED:
            raise sys.modules["minio.error"].ResponseError("refused")
        with open(file_path, "rb") as f:
            STORE[bucket_name, object_name] = f.read()

    def bucket_exists(self, *_, **__): return True
    def make_bucket(self, *_, **__): pass


def install():
    if "minio" not in sys.modules:
        sys.modules["minio"] = types.ModuleType("minio")
        sys.modules["minio"].Minio = Minio
        error = sys.modules["minio.error"] = sys.modules["minio"].error = types.ModuleType("minio.error")
        for name in ("BucketAlreadyExists", "BucketAlreadyOwnedByYou", "ResponseError"):
            setattr(error, name, type(name, (Exception,), {}))
    STORE.clear()
    REFUSED.clear()
    del CALLS[:]


def log_record(rng, n):
    kind = rng.choice(["data", "mc", "user", "relval", "datax", "DATA", "group"])
    name = rng.choice(["/store/%s/Run2018A/DoubleEG/%d.root", "/store/%s/%d.root", "store/%s/x/%d.root", "//store//%s//%d.root", "/%s/store/%d.root", "/store/x/%s/%d.root", "%s%d"]) % (kind, n)
    return {"Type": rng.choice(["analysis", "Analysis", "ANALYSIS", "production", "test", "analysis2", "unknown", ""]), "FileName": name, "JobId": n, "Size": rng.random() * 1e9}


def days(rng):
    start = rng.choice([date(2018, 1, 1), date(2018, 2, 27), date(2020, 2, 27), date(2018, 12, 30), date(2018, rng.randrange(1, 13), rng.randrange(1, 29))])
    return [start + timedelta(days=i) for i in range(rng.choice([0, 1, 2, 3, 5]))], start


@register("C62", quick=600, deep=12000, rule="A case runs one data preparation script; a situation is (script, days, records, kept, fault).",
          need=["filter", "filter data mc", "move", "clean", "month end", "kept record", "left out record", "no record kept", "upload refused", "incomplete row", "index column"])
def prepare(t):
    rng = t.rng
    install()
    os.chdir(t.dir)
    which = rng.choice(["filter", "filter data mc", "move", "clean"])
    t.count(which)
    if which == "clean":
        return clean(t)
    period, start = days(rng)
    if len({d.month for d in period}) > 1:
        t.count("month end")
    bucket = rng.choice(["logs", "cms-logs"])
    args = ["host:9000", "key", "secret", bucket, rng.choice(["%d %d %d", "%04d %02d %02d"]) % (start.year, start.month, start.day), len(period)]
    names = ["year%d_month%d_day%d" % (d.year, d.month, d.day) for d in period]
    if which == "move":
        return move(t, period, names, bucket, args)
    from DataManager import AvroDataFileWriter
    want, n = {}, 0
    around = [start - timedelta(days=1), start + timedelta(days=len(period))]
    for d in period + around:
        name = "year%d_month%d_day%d" % (d.year, d.month, d.day)
        recs = []
        for _ in range(rng.choice([1, 2, 6, 20])):
            recs.append(log_record(rng, n))
            n += 1
        memory = io.BytesIO()
        writer = AvroDataFileWriter(memory, data=recs)
        STORE[bucket, name + ".avro"] = writer.raw_data
        kept = [r for r in recs if r["Type"].lower() == "analysis"]
        if which == "filter data mc":
            kept = [r for r in kept if ([p for p in r["FileName"].split("/") if p] + ["", ""])[1] in ("data", "mc")]
        if d in period:
            want[name + ".json.gz"] = kept
            t.count("kept record", len(kept))
            t.count("left out record", len(recs) - len(kept))
            if not kept:
                t.count("no record kept")
    before = dict(STORE)
    status, _ = script("scripts/filter_analysis_logs.py" if which == "filter" else "scripts/filter_analysis_data-mc_logs.py", *args)
    t.equal(status, 0, "exit status")
    t.equal(CALLS[:1], [("connect", "host:9000", "key", "secret")], "connection")
    target = bucket + ("-analysis" if which == "filter" else "-analysis-data-mc")
    t.equal({k: v for k, v in STORE.items() if k in before}, before, "the objects that were there")
    t.equal(sorted(k for k in STORE if k not in before), sorted((target, k) for k in want), "objects written")
    t.equal([c for c in CALLS if c[0] == "put"], [("put", target, n + ".json.gz") for n in names], "uploads")
    for name, recs in want.items():
        text = gzip.decompress(STORE[target, name]).decode()
        t.equal([json.loads(l) for l in text.splitlines() if l], recs, "records of " + name)
    t.equal(os.listdir(t.dir), [], "files left behind")
    t.sig(which, len(period), [len(v) for v in want.values()])
    t.sample({"script": which, "days": len(period), "kept": [len(v) for v in want.values()]})


HDFS = "/project/awg/cms/jm-data-popularity/avro-snappy/year=%d/month=%d/day=%d/part-m-00000.avro"


def move(t, period, names, bucket, args):
    rng = t.rng
    tools, root = os.path.join(t.dir, "tools"), os.path.join(t.dir, "root")
    os.makedirs(tools)
    os.makedirs(os.path.join(t.dir, "work"))
    os.chdir(os.path.join(t.dir, "work"))
    with open(os.path.join(tools, "hdfs"), "w") as f:
        f.write('#!/bin/sh\n[ "$1 $2" = "dfs -get" ] || exit 9\n[ -e "${4:-$(basename "$3")}" ] && { echo "File exists" >&2; exit 1; }\nexec cp "%s/$3" "${4:-.}"\n' % root)
    os.chmod(os.path.join(tools, "hdfs"), 0o755)
    content, refused = {}, set()
    for d, name in zip(period, names):
        where = root + HDFS % (d.year, d.month, d.day)
        os.makedirs(os.path.dirname(where))
        content[name + ".avro"] = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 300])))
        with open(where, "wb") as f:
            f.write(content[name + ".avro"])
        if rng.random() < .15:
            REFUSED.add((bucket, name + ".avro"))
            refused.add(name + ".avro")
            t.count("upload refused")
    path = os.environ["PATH"]
    os.environ["PATH"] = tools + ":" + path
    try:
        status, _ = script("scripts/move_data_hdfs2minio.py", *args)
    finally:
        os.environ["PATH"] = path
    t.equal(status, 0, "exit status")
    t.equal(STORE, {(bucket, k): v for k, v in content.items() if k not in refused}, "objects written")
    t.equal([c for c in CALLS if c[0] == "put"], [("put", bucket, n + ".avro") for n in names], "uploads")
    t.equal(os.listdir("."), [], "files left behind")
    t.sig("move", len(period), len(refused))
    t.sample({"script": "move", "days": len(period), "refused": len(refused)})


def clean(t):
    rng = t.rng
    folder = os.path.join(t.dir, "src")
    os.mkdir(folder)
    want = {}
    for i in range(rng.randrange(1, 4)):
        columns = ["Filename", "Size", "SiteName", "index"][:rng.choice([2, 3, 4])]
        rng.shuffle(columns)
        rows = []
        for n in range(rng.choice([0, 1, 4, 12])):
            rows.append({c: rng.choice(["", "/a/%d" % n, "b"]) if c == "Filename" else rng.choice(["", 0, 7, 123456]) if c == "Size" and rng.random() < .3 else n if c != "SiteName" else
                         rng.choice(["T2_IT_x", "T1_US_y", "T2_IT_x", ""]) for c in columns})
        plain = rng.random() < .2
        name = "f%d.csv%s" % (i, "" if plain else ".gz")
        with (open if plain else gzip.open)(os.path.join(folder, name), "wt", newline="") as f:
            out = csv.DictWriter(f, columns)
            out.writeheader()
            out.writerows(rows)
        if plain:
            continue
        full = [r for r in rows if all(v != "" for v in r.values())]
        if len(full) < len(rows):
            t.count("incomplete row")
        if "index" in columns:
            t.count("index column")
        keep = [c for c in columns if c != "index"]
        want[name] = (keep, [[r[c] for c in keep] for r in full])
    sources = {n: open(os.path.join(folder, n), "rb").read() for n in os.listdir(folder)}
    status, _ = script("scripts/DataAnalysis/clean_csv.py", folder)
    t.equal(status, 0, "exit status")
    t.equal({n: open(os.path.join(folder, n), "rb").read() for n in os.listdir(folder)}, sources, "source files")
    t.equal(sorted(os.listdir(folder + "_clean")), sorted(want), "clean files")
    for name, (keep, rows) in want.items():
        with gzip.open(os.path.join(folder + "_clean", name), "rt", newline="") as f:
            got = list(csv.reader(f))
        t.equal(got[0], keep, "columns of " + name)
        t.equal([[float(v) if c == "Size" else v for c, v in zip(keep, r)] for r in got[1:]],
                [[float(v) if c == "Size" else str(v) for c, v in zip(keep, r)] for r in rows], "rows of " + name)
    t.sig("clean", [len(v[1]) for v in want.values()], len(sources))
    t.sample({"script": "clean", "files": len(want)})
