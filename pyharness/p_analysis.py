"""The stand-alone analysis programs: the caches of the weight function study (C65) and the job statistics (C66)."""
import contextlib
import copy
import functools
import gzip
import http.server
import importlib.util
import io
import json
import os
import pickle
import sqlite3
import sys
import threading
import types
from datetime import date, datetime, timedelta

import pcheck
from pcheck import register

REPO = pcheck.REPO
AUTO = ("grpc", "google", "seaborn", "bokeh", "minio", "redis", "SmartCache.sim.pySimService")
_loaded = {}


class Auto(types.ModuleType):
    """A module of a library that is not installed: every name exists and does nothing."""
    __path__ = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        kind = type(name, (Exception,), {}) if name.endswith("Error") else AnyName(name, (Nothing,), {})
        setattr(self, name, kind)
        return kind


class AnyName(type):
    def __getattr__(cls, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return AnyName(name, (Nothing,), {})


class Nothing(metaclass=AnyName):
    def __init__(self, *args, **kwargs):
        self.args, self.kwargs = args, kwargs

    def __class_getitem__(cls, key):
        return "colour"


class Finder(object):
    @staticmethod
    def find_spec(name, path=None, target=None):
        if any(name == a or name.startswith(a + ".") for a in AUTO):
            return importlib.util.spec_from_loader(name, Finder, is_package=True)

    @staticmethod
    def create_module(spec):
        return Auto(spec.name)

    @staticmethod
    def exec_module(module):
        pass


def load(name):
    if name not in _loaded:
        sys.meta_path.insert(0, Finder)
        try:
            path = os.path.join(REPO, "scripts/DataAnalysis", name + ".py")
            spec = importlib.util.spec_from_file_location("analysis_" + name, path)
            mod = importlib.util.module_from_spec(spec)
            sys.modules[spec.name] = mod
            spec.loader.exec_module(mod)
        finally:
            sys.meta_path.remove(Finder)
        _loaded[name] = mod
    return _loaded[name]


def run_main(mod, args):
    argv, out, kind, pools = sys.argv, io.StringIO(), mod.Pool, []

    def pool(*a, **kw):
        pools.append(kind(*a, **kw))
        return pools[-1]
    sys.argv, mod.Pool = ["program"] + [str(a) for a in args], pool
    try:
        with contextlib.redirect_stdout(out):
            mod.main()
    finally:
        sys.argv, mod.Pool = argv, kind
        for p in pools:         # where the program did not come to its end
            p.terminate()
    return out.getvalue()


# -- C65 ---------------------------------------------------------------------
class LRU(object):
    """What the least recently used cache has to be."""

    def __init__(self, size):
        self.max, self.files, self.order = size, {}, []
        self.hits = self.misses = 0
        self.sizes, self.rates, self.written, self.read = [], [], [0.0], [0.0]

    def get(self, name, size):
        hit, added = name in self.files, False
        if hit:
            self.hits += 1
            self.order.remove(name)
            self.order.append(name)
        else:
            self.misses += 1
            if size <= self.max:
                while sum(self.files.values()) + size > self.max:
                    del self.files[self.order.pop(0)]
                self.files[name], added = size, True
                self.order.append(name)
        self.note(hit, added, size)
        return hit

    def note(self, hit, added, size):
        self.sizes.append(sum(self.files.values()))
        self.rates.append(self.hits / (self.hits + self.misses) * 100.)
        self.written.append(self.written[-1] + (size if added else 0.0))
        self.read.append(self.read[-1] + (size if hit else 0.0))

    def clear_history(self):
        self.sizes, self.rates, self.written, self.read = self.sizes[-1:], self.rates[-1:], self.written[-1:], self.read[-1:]

    def reset_history(self):
        self.sizes, self.rates, self.written, self.read, self.hits, self.misses = [], [], [0.0], [0.0], 0, 0

    def clear(self):
        self.files, self.order = {}, []


class Tie(Exception):
    pass


class Weighted(LRU):
    """What the weighted cache has to be; weigh(size, requests of the file, requests of the group) is its cost function."""

    def __init__(self, size, weigh):
        super().__init__(size)
        self.weigh, self.weights = weigh, {}
        self.requests, self.group = {}, {}

    @staticmethod
    def group_of(name):
        return tuple(name.split("/")[2:6])

    def get(self, name, size):
        hit, added, group = name in self.files, False, self.group_of(name)
        self.requests[name] = self.requests.get(name, 0) + 1
        self.group[group] = self.group.get(group, 0) + 1
        if hit:
            self.hits += 1
        else:
            self.misses += 1
            weight = self.weigh(size, self.requests[name], self.group[group])
            if sum(self.files.values()) + size <= self.max:
                added = True
            else:
                for f in self.files:
                    if self.group_of(f) == group:
                        self.weights[f] = self.weigh(self.files[f], self.requests[f], self.group[group])
                for f in sorted(self.files, key=lambda f: -self.weights[f]):
                    if len({self.weights[f] for f in self.files}) != len(self.files) or weight in self.weights.values():
                        raise Tie
                    if self.weights[f] <= weight:
                        break
                    del self.files[f], self.weights[f]
                    if sum(self.files.values()) + size <= self.max:
                        added = True
                        break
            if added:
                self.files[name], self.weights[name] = size, weight
        self.note(hit, added, size)
        return hit

    def clear(self):
        self.files, self.weights = {}, {}

    def reset_weights(self):
        self.group = {}


def same_cache(t, cache, model, what):
    t.equal(sorted(cache.state["cache"].items()), sorted(model.files.items()), what + " files held")
    t.equal(len(cache), len(model.files), what + " number of files")
    t.near(cache.size, sum(model.files.values()), what + " size")
    t.check(cache.size <= model.max + 1e-9, "%s holds more than its size: %r of %r", what, cache.size, model.max)
    t.near(cache.capacity, sum(model.files.values()) / model.max * 100., what + " share of its size in use")
    if model.hits + model.misses:
        t.near(cache.hit_rate, model.hits / (model.hits + model.misses) * 100., what + " hit rate")
    if model.sizes:
        t.near(cache.written_data, model.written[-1], what + " written data")
        t.near(cache.read_on_hit, model.read[-1], what + " data read on hits")


def same_history(t, cache, model, what):
    t.equal(len(cache.history), 4, what + " histories")
    for got, want, kind in zip(cache.history, (model.sizes, model.rates, model.written, model.read),
                               ("size", "hit rate", "written data", "read on hit")):
        want = want[-len(model.sizes):] if model.sizes else []
        t.equal(len(got), len(want), "%s length of the %s history" % (what, kind))
        for i, (a, b) in enumerate(zip(got, want)):
            t.near(a, b, "%s %s after request %d of its history" % (what, kind, i))


def exact(x):
    return round(x * 1024) / 1024


def file_pool(rng, n, largest):
    out = []
    for i in range(n):
        out.append(("/store/%s/%s/%s/%s/%s%d.root" % (
            rng.choice(["data", "mc"]), rng.choice(["Run1", "Run2"]), rng.choice(["A", "B"]), rng.choice(["AOD", "RAW"]),
            rng.choice(["", "x/", "x/y/"]), i), exact(rng.uniform(largest * .02, largest * rng.choice([.1, .3, .7])))))
    return out


def cache_case(t, weighted):
    mod, rng = load("weight_function"), t.rng
    size = exact(rng.uniform(50, 500))
    files = file_pool(rng, rng.randint(3, 60), size)
    if rng.random() < .4:
        files.append(("/store/data/Run1/A/AOD/huge.root", rng.choice([size, exact(size * rng.uniform(1.01, 3))])))
    exp = rng.choice([1, 2, 2, 3, .5])
    asked = []

    def cost(**kw):
        asked.append(kw)
        return mod.simple_cost_function(exp=exp, **kw)

    def make(state=None):
        kw = {"init_state": state} if state else {}
        return mod.WeightedCache(size, cost, **kw) if weighted else mod.LRUCache(size, **kw)
    cache = make()
    model = Weighted(size, lambda s, f, n: (s * n / f) ** exp) if weighted else LRU(size)
    what = "weighted cache" if weighted else "LRU cache"
    recent = []
    for step in range(rng.choice([30, 120, 400])):
        name, fsize = rng.choice(recent) if recent and rng.random() < .3 else rng.choice(files)
        recent = (recent + [(name, fsize)])[-8:]
        before = dict(model.files)
        t.equal(cache.check(name), name in before, "%s: is %s there" % (what, name))
        asked.clear()
        try:
            want = model.get(name, fsize)
        except Tie:
            t.count("not judged further: equal weights")
            return
        t.equal(cache.get(name, fsize), want, "%s: hit of request %d for %s" % (what, step, name))
        same_cache(t, cache, model, "%s after request %d (%s)" % (what, step, name))
        t.count("hits" if want else "misses")
        left = set(before) - set(model.files)
        t.count("evictions", len(left))
        if not want and name not in model.files:
            t.count("not admitted")
        if left and weighted and name not in model.files:
            t.count("files given up for nothing")
        act = rng.random()
        if act < .02:
            same_history(t, cache, model, what)
            cache.clear_history(), model.clear_history()
            t.count("histories cut")
        elif act < .03:
            cache.reset_history(), model.reset_history()
            t.count("histories reset")
        elif act < .04:
            cache.clear(), model.clear()
            if weighted and rng.random() < .5:
                cache.reset_weights(), model.reset_weights()
            same_cache(t, cache, model, what + " cleared")
            t.count("clears")
        elif act < .05 and weighted:
            cache.reset_weights(), model.reset_weights()
            same_cache(t, cache, model, what + " with its weights reset")
            t.count("weights reset")
        elif act < .08:
            if weighted or rng.random() < .5:
                cache = make(copy.deepcopy({k: v for k, v in cache.state.items() if k != "cost_function"}) | (
                    {"cost_function": cost} if weighted else {}))
            else:
                cache = pickle.loads(pickle.dumps(cache))
            same_cache(t, cache, model, what + " from a saved state")
            t.count("states restored")
    same_history(t, cache, model, what)
    t.sig(weighted, tuple(sorted(model.files)), model.hits, model.misses)
    t.sample({"kind": what, "size": size, "hits": model.hits, "misses": model.misses, "files": len(model.files)})


def cost_case(t):
    import time as clock
    mod, rng = load("weight_function"), t.rng
    for _ in range(40):
        kw = dict(size=rng.uniform(1, 1e4), frequency=rng.randint(1, 50), num_files=rng.randint(1, 50), exp=rng.choice([1., 2., 4., .5]))
        t.near(mod.simple_cost_function(**kw), (kw["size"] * kw["num_files"] / kw["frequency"]) ** kw["exp"], "weight %r" % kw)
        now = clock.time()
        first, last = now - rng.uniform(1e4, 1e6), now - rng.uniform(1e4, 1e6)
        want = (kw["size"] * kw["num_files"] * ((now - first) * (now - last)) / kw["frequency"]) ** kw["exp"]
        t.near(mod.cost_function_with_time(first_time=first, last_time=last, **kw), want, "weight with time %r" % kw, rel=2e-2)
    # whom the cache asks about
    calls = []

    def cost(**kw):
        calls.append(kw)
        return 1.0
    cache, begin, groups, count = mod.WeightedCache(1e9, cost), clock.time(), {}, {}
    for name, size in [rng.choice(file_pool(rng, 12, 100)) for _ in range(30)]:
        group = Weighted.group_of(name)
        had = cache.check(name)
        groups[group], count[name] = groups.get(group, 0) + 1, count.get(name, 0) + 1
        calls.clear()
        cache.get(name, size)
        if not had:
            kw = calls[0]
            t.equal((kw["size"], kw["frequency"], kw["num_files"]), (size, float(count[name]), float(groups[group])),
                    "size, requests of the file and of its group the weight of %s is computed from" % name)
            t.check(begin - 1 <= kw["first_time"] <= clock.time() + 1, "the first request of the group was at %r", kw["first_time"])
    t.count("cost function cases")


class Server(object):
    def __init__(self):
        self.puts = puts = []

        class H(http.server.BaseHTTPRequestHandler):
            def do_PUT(self):
                body = self.rfile.read(int(self.headers.get("Content-Length") or 0))
                puts.append((self.path.strip("/").split("/"), json.loads(gzip.decompress(body))))
                self.send_response(200)
                self.send_header("Content-Length", "0")
                self.end_headers()

            def log_message(self, *_):
                pass
        self.http = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.url = "http://127.0.0.1:%d" % self.http.server_address[1]
        threading.Thread(target=self.http.serve_forever, daemon=True).start()

    def close(self):
        self.http.shutdown()
        self.http.server_close()


SITES = ["T2_IT_Pisa", "T2_IT_Bari", "T1_US_FNAL", "T2_US_Wisconsin", "T2_it_Rome", "T3_UK_London"]


def result_files(t, folder, scale=1):
    """Daily result files, and what they hold."""
    import pandas as pd
    rng = t.rng
    files = [(n, int(s * 1024 ** 2) * scale) for n, s in file_pool(rng, rng.randint(5, 40), 200)]
    out, day = [], date(2018, 5, rng.randint(1, 20))
    os.makedirs(folder, exist_ok=True)
    for _ in range(rng.randint(1, 9)):
        rows = []
        for _ in range(rng.randint(1, 60)):
            name, size = rng.choice(files)
            rows.append({"filename": name, "size": float(size) if rng.random() < .9 else float("nan"), "site_name": rng.choice(SITES),
                         "day": datetime(day.year, day.month, day.day).timestamp(), "user": rng.randint(0, 5)})
        name = os.path.join(folder, "results_%s.feather.gz" % day)
        with gzip.GzipFile(name, "wb") as f:
            pd.DataFrame(rows).to_feather(f)
        out.append((name, rows))
        day += timedelta(days=rng.choice([1, 1, 1, 2, 5]))
    if rng.random() < .5:
        for junk in ("notes.txt", "old_2018-01-01.feather.gz", "results_x.json.gz"):
            open(os.path.join(folder, junk), "w").close()
    return out


def chosen(rows, region):
    return [(r["filename"], r["size"] / 1024 ** 2, r["day"]) for r in rows
            if r["size"] == r["size"] and (region == "_all_" or region.lower() in r["site_name"].lower())]


def fake_worker():
    class P(object):
        name, _identity = "ForkPoolWorker-1", (1,)

        def __str__(self): return "<ForkProcess(ForkPoolWorker-1, started daemon)>"
    return P()


def simulate_case(t, through):
    mod, rng = load("weight_function"), t.rng
    mod.current_process = fake_worker
    scale = 1024 ** 2 if through == "main" else 1
    days = result_files(t, os.path.join(t.dir, "in"), scale)
    width = rng.choice([1, 2, 3, 7])
    windows = [days[i:i + width] for i in range(0, len(days), width)]
    region = rng.choice(["_all_", "_it_", "_us_", "_uk_"])
    size, clear, forget = exact(rng.uniform(100, 900)) * scale, rng.random() < .4, rng.random() < .4
    t.sig(through, region, len(windows), size)
    if through == "main":
        limit, jobs, other = rng.choice([-1, -1, 1, 2, 5]), rng.choice([1, 3]), 2048. * scale
        exps = rng.choice([[2], [1, 3]])
        got, plot = {}, mod.plot_cache_results
        mod.plot_cache_results = lambda caches, out_folder, dpi=300: got.update(caches)
        asked = rng.choice(["lru", "simple", "lru,simple", "simple,lru"])
        try:
            run_main(mod, ["--result-folder", os.path.join(t.dir, "in"), "--out-folder", os.path.join(t.dir, "out"), "--functions",
                           asked, "--cache-sizes", "%r,%r" % (size, other), "-ws", width, "-mw", limit, "-j", jobs, "--exp-values",
                           ",".join(str(e) for e in exps), "--region", region.strip("_")] + ["-cC"] * clear + ["-cW"] * forget)
        finally:
            mod.plot_cache_results = plot
        keep = windows if limit < 0 else windows[:limit]
        wanted = {}
        for s in (size, other):
            for c in [False, True][:1 + clear]:
                if "lru" in asked:
                    wanted["LRUCache_%dT%s" % (int(s / scale), "_cC" * c)] = (LRU(s), c, False)
                for e in exps if "simple" in asked else []:
                    for w in [False, True][:1 + forget]:
                        name = "_".join(["WeightedCache_%dT_simple_f_%de" % (int(s / scale), e)] + ["cC"] * c + ["cW"] * w)
                        wanted[name] = (weighted_model(s, e), c, w)
        t.equal(sorted(got), sorted(wanted), "caches simulated")
        for name, (model, c, w) in wanted.items():
            compare_run(t, model, keep, region, c, w, got[name], name)
        t.count("runs of the program")
        return
    names = [[f for f, _ in w] for w in windows]
    if through == "remote":
        with_server(lambda server: remote_case(t, mod, names, windows, region, server))
        return
    options = {"clear_cache": clear, "clear_weights": forget, "fun_name": "simple", "exp": 2}
    if rng.random() < .5:
        cache, model = mod.LRUCache(size, cache_options={"clear_cache": clear}), LRU(size)
    else:
        cache, model = mod.WeightedCache(size, functools.partial(mod.simple_cost_function, exp=2), cache_options=options), weighted_model(size, 2)
    if through == "plain":
        out = mod.simulate((cache, names, False, region, None, False))
        compare_run(t, model, windows, region, clear, forget, out, "simulation of " + str(cache))
    else:
        with_server(lambda server: server_case(t, mod, server, cache, model, names, windows, region, clear, forget))


def weighted_model(size, exp):
    return Weighted(size, lambda s, f, n: (s * n / f) ** exp)


def with_server(fun):
    server = Server()
    try:
        fun(server)
    finally:
        server.close()


def server_case(t, mod, server, cache, model, names, windows, region, clear, forget):
    info, points, first, ask, name = [], [], None, t.rng.random() < .6, str(cache)
    try:
        for num, window in enumerate(windows):
            n = 0
            for _, rows in window:
                for f, fsize, day in chosen(rows, region):
                    first = first or datetime.fromtimestamp(day)
                    model.get(f, fsize)
                    if datetime.fromtimestamp(day) - first >= timedelta(days=1):
                        n, first = n + 1, datetime.fromtimestamp(day)
                        points.append((num, n, model.rates[-1], model.sizes[-1], model.written[-1], model.read[-1]))
            info.append(dict(model.files))
            end_window(model, clear, forget)
    except Tie:
        t.count("not judged further: equal weights")
        return
    mod.simulate((cache, names, ask, region, server.url, False))
    updates = [p for p in server.puts if p[0][1] == "update"]
    t.check(all(p[0][0] == "cache" and p[0][2] == name for p in server.puts), "reports sent to %r", [p[0] for p in server.puts][:3])
    for k, at in (("hit_rate", 2), ("size", 3), ("written_data", 4), ("read_on_hit", 5)):
        want = [(p[0], p[1], p[at]) for p in points]
        got = [(int(p[0][3]), i, v) for p in updates for i, v in p[1][k]]
        t.check(not got and not want or got[0][1:] == (0, 0.0), "first point of %s: %r", k, got[:1])
        t.equal([g[:2] for g in got[1:]], [w[:2] for w in want], "window and number of the points of " + k)
        for g, w in zip(got[1:], want):
            t.near(g[2], w[2], "%s of day %d of window %d" % (k, w[1], w[0]))
    t.count("points on the plot server", len(points))
    infos = [p for p in server.puts if p[0][1] == "info"]
    t.equal([(int(p[0][3]), p[1]["cache"]) for p in infos], list(enumerate(info)) if ask else [], "contents sent after each window")


def end_window(model, clear, forget):
    model.clear_history()
    if clear:
        model.clear()
    if forget and isinstance(model, Weighted):
        model.reset_weights()


def remote_case(t, mod, names, windows, region, server):
    calls, rng = [], t.rng

    class Stub(object):
        def __init__(self, channel):
            calls.append(("connect", channel.url))

        def SimReset(self, _): calls.append(("reset",))
        def SimGet(self, f): calls.append(("get", f.filename, f.size))
        def SimClearHitMissStats(self, _): calls.append(("clear",))

        def SimGetInfoCacheStatus(self, _):
            n = sum(c[0] == "get" for c in calls)
            return types.SimpleNamespace(hitRate=n + .1, weightedHitRate=n + .2, hitOverMiss=n + .3, capacity=n + .4,
                                         writtenData=n + .5, readOnHit=n + .6, size=n + .7)
    channel = types.SimpleNamespace(close=lambda: calls.append(("close",)))
    mod.grpc = types.SimpleNamespace(insecure_channel=lambda url: setattr(channel, "url", url) or channel)
    mod.simService_pb2_grpc = types.SimpleNamespace(SimServiceStub=Stub)
    mod.simService_pb2 = types.SimpleNamespace(SimCommonFile=lambda filename, size: types.SimpleNamespace(filename=filename, size=size))
    mod.simulate(("rpc:lru_10T:localhost:%d" % t.case, names, False, region, server.url, True))
    t.equal(calls[0], ("connect", "localhost:%d" % t.case), "simulation service")
    t.equal(calls[1], ("reset",), "first request to the service")
    t.equal(calls[-1], ("close",), "last action on the service")
    want, first, n, k = [], None, 0, 0
    points = []
    for num, window in enumerate(windows):
        k = 0
        for _, rows in window:
            for name, size, day in chosen(rows, region):
                first, n = first or datetime.fromtimestamp(day), n + 1
                want.append(("get", name, size))
                if datetime.fromtimestamp(day) - first >= timedelta(days=1):
                    k, first = k + 1, datetime.fromtimestamp(day)
                    want.append(("clear",))
                    points.append((num, k, n))
    t.equal(calls[2:-1], want, "requests and resets of the counters, in order")
    for key, part in (("hit_rate", .1), ("weighted_hit_rate", .2), ("hit_over_miss", .3), ("size", .7), ("written_data", .5), ("read_on_hit", .6)):
        got = [(int(p[0][3]), i, v) for p in server.puts if p[0][:3] == ["cache", "update", "lru_10T"] for i, v in p[1][key]]
        t.equal(got[1:], [(w, i, c + part) for w, i, c in points], "points of %s, as the service gave them" % key)
    t.count("remote requests", n)


def compare_run(t, model, windows, region, clear, forget, got, what):
    sizes, rates, written, infos = got
    t.equal((len(sizes), len(rates), len(written), len(infos)), (len(windows),) * 4, what + ": windows reported")
    for num, window in enumerate(windows):
        try:
            for _, rows in window:
                for name, fsize, _ in chosen(rows, region):
                    model.get(name, fsize)
                    t.count("requests")
        except Tie:
            t.count("not judged further: equal weights")
            return
        for have, want, kind in ((sizes, model.sizes, "size"), (rates, model.rates, "hit rate"),
                                 (written, model.written[-len(model.sizes):] if model.sizes else [], "written data")):
            t.equal(len(have[num]), len(want), "%s: length of the %s history of window %d" % (what, kind, num))
            for i, (a, b) in enumerate(zip(have[num], want)):
                t.near(a, b, "%s: %s at %d of window %d" % (what, kind, i, num))
        t.equal(infos[num]["cache"], model.files, "%s: contents after window %d" % (what, num))
        end_window(model, clear, forget)
    t.count("windows", len(windows))


def results_case(t):
    mod, rng = load("weight_function"), t.rng
    name = os.path.join(t.dir, "r%d.pickle" % t.case)
    as_dict, want = rng.random() < .5, None
    for i in range(rng.randint(1, 5)):
        part = {rng.choice("abc"): [rng.random()]} if as_dict else [rng.random() for _ in range(rng.randint(0, 3))]
        mod.store_results(name, copy.deepcopy(part))
        want = part if want is None else ({**want, **part} if as_dict else want + part)
        for path in (name, name + ".gz"):
            t.equal(mod.load_results(path), want, "results stored %d times" % (i + 1))
    t.count("results stored")


@register("C65", quick=220, deep=2600, timeout=120, need=("hits", "evictions", "requests", "remote requests"),
          rule="A cache of the weight function study holds, admits and evicts exactly what a cache written down from its statement does, "
               "request by request and after cutting, clearing or restoring its state; a simulation's histories, stored results and reports "
               "are those of its windows.")
def c65(t):
    kind = t.case % 10
    if kind < 3:
        cache_case(t, True)
    elif kind < 6:
        cache_case(t, False)
    elif kind == 6:
        cost_case(t)
        results_case(t)
    else:
        simulate_case(t, {7: "plain", 8: "server", 9: "remote" if t.case % 20 < 10 else "main"}[kind])


# -- C66 ---------------------------------------------------------------------
GB = 1024. ** 3


def job_record(rng, names):
    start = rng.randint(1525000000000, 1530000000000)
    length = rng.choice([0, 59999, 60000, 3599999, 3600000, rng.randint(0, 5 * 3600000), rng.randint(0, 90 * 3600000)])
    return {"FileName": rng.choice(names), "UserId": "u%d" % rng.randint(1, 6), "SiteName": rng.choice(SITES),
            "TaskMonitorId": "tm%d" % rng.randint(1, 9), "TaskId": "t%d" % rng.randint(1, 9), "JobId": "j%d" % rng.randint(1, 30),
            "ProtocolUsed": rng.choice(["Local", "Remote", "Unknown", "xrootd"]), "JobExecExitCode": rng.choice(["0", "0", "1", "50660", "", None]),
            "NCores": str(rng.choice([1, 1, 2, 4, 8])), "WrapWC": str(round(rng.uniform(0, 1e5), 2)), "WrapCPU": str(round(rng.uniform(0, 3e5), 2)),
            "StartedRunningTimeStamp": start, "FinishedTimeStamp": start + length, "Extra": "x"}


def job_row(day, r, sizes):
    length = timedelta(milliseconds=r["FinishedTimeStamp"] - r["StartedRunningTimeStamp"])
    cpu = float(r["WrapCPU"]) / int(r["NCores"])
    return {"day": datetime(*day).timestamp(), "filename": r["FileName"], "protocol": r["ProtocolUsed"], "task_monitor_id": r["TaskMonitorId"],
            "task_id": r["TaskId"], "job_id": r["JobId"], "site_name": r["SiteName"], "job_success": r["JobExecExitCode"] == "0",
            "job_length_h": length // timedelta(hours=1), "job_length_m": length // timedelta(minutes=1), "user": r["UserId"],
            "cpu_time": cpu, "io_time": float(r["WrapWC"]) - cpu, "size": sizes.get(r["FileName"], float("nan"))}


def same_rows(t, frame, rows, what):
    cols = set(frame.columns) - {"index"}
    t.equal(cols, set(rows[0]) if rows else cols, what + " columns")
    t.equal(len(frame), len(rows), what + " number of rows")
    for name in sorted(cols):
        for i, (got, row) in enumerate(zip(frame[name].tolist(), rows)):
            want = row[name]
            if isinstance(want, float):
                t.check(got == want or got != got and want != want or abs(got - want) <= 1e-9 * max(1, abs(want)),
                        "%s: %s of record %d is %r instead of %r", what, name, i, got, want)
            else:
                t.check(got == want, "%s: %s of record %d is %r instead of %r", what, name, i, got, want)


def size_db(t, folder, big):
    """The databases of file sizes: the names in use and what is in them."""
    rng, names, sizes = t.rng, [], {}
    os.makedirs(folder)
    for kind in ("mc", "data"):
        db = sqlite3.connect(os.path.join(folder, kind + "_file_sizes.db"))
        db.execute("CREATE TABLE file_sizes (f_logical_file_name TEXT, f_file_size INTEGER)")
        for s in range(rng.randint(1, 4)):
            base = "/store/%s/Run%d/P%d/AOD/set%d" % (kind, rng.randint(1, 2), rng.randint(1, 2), s)
            here = ["%s/%s%d.root" % (base, rng.choice(["", "0000/", "a/b/"]), i) for i in range(rng.choice([3, 20, 250 if big else 30]))]
            names += here
            for name in here:
                if rng.random() < .85:
                    sizes[name] = rng.randint(1, 5 * 1024 ** 3)
                    db.execute("INSERT INTO file_sizes VALUES (?, ?)", (name, sizes[name]))
        db.commit()
        db.close()
    return names, sizes


class Redis(object):
    """The shared store of sizes, of which another process may be loading parts."""

    def __init__(self):
        self.data, self.later, self.asked = {}, {}, 0

    def _key(self, k): return k.decode() if isinstance(k, bytes) else k
    def exists(self, k): return int(self._key(k) in self.data)

    def set(self, k, v):
        self.data[self._key(k)] = v if isinstance(v, bytes) else str(v).encode()
        return True

    def mset(self, mapping):
        for k, v in mapping.items():
            self.set(k, v)

    def get(self, k): return self.mget([k])[0]

    def mget(self, keys, *more):
        self.asked += 1
        if self.asked % 3 == 0 and self.later:     # the other process goes on
            name = sorted(self.later)[0]
            self.mset(self.later.pop(name))
            self.set(name, "ADDED")
        return [self.data.get(self._key(k)) for k in list([keys] if isinstance(keys, (str, bytes)) else keys) + list(more)]


def set_of(name):
    return "/".join(name.split("/")[:7])


def extraction_case(t, how):
    mod, rng = load("statistics"), t.rng
    folder = os.path.join(t.dir, "db%d" % t.case)
    names, sizes = size_db(t, folder, big=rng.random() < .3)
    store, known = Redis(), {}
    mod.redis = types.SimpleNamespace(Redis=lambda **kw: store, BlockingConnectionPool=lambda **kw: kw)
    if how == "none":
        used = {}
        stats = mod.Statistics()
    else:
        if how == "redis":
            for s in sorted({set_of(n) for n in names}):
                if rng.random() < .3:              # another process is at it, or is done with it
                    part = {n: v for n, v in sizes.items() if set_of(n) == s}
                    if rng.random() < .5:
                        store.set(s, "PENDING")
                        store.later[s] = part
                        t.count("sets another process is loading")
                    else:
                        store.mset(part)
                        store.set(s, "ADDED")
        else:
            names = names + ["/store/user/someone/x%d/AOD/s/1.root" % rng.randint(0, 9), "/store/data/short.root"]
        used = sizes
        stats = mod.Statistics(folder, "localhost" if how == "redis" else None)
    rows, day = [], (2018, rng.randint(1, 12), rng.randint(1, 28))
    # a job record per addition, the table read now and then
    total = rng.choice([1, 10, 100, 600])
    if t.case % 240 == 7:
        total = 42000 + rng.choice([0, 1, 500])    # more than are kept aside before they enter the table
        t.count("tables of more than 42000 records", total >= 42000)
    for i in range(total):
        if rng.random() < .02:
            day = (2018, rng.randint(1, 12), rng.randint(1, 28))
        r = job_record(rng, names)
        keep = dict(r)
        stats.add(day, r)
        t.check(r == keep, "the record was changed")
        rows.append(job_row(day, r, used))
        if rng.random() < 3. / total:
            same_rows(t, stats.data, rows, "table after %d records" % (i + 1))
            t.count("tables read on the way")
    frame = stats.data
    same_rows(t, frame, rows, "table")
    t.equal(list(frame.columns), list(job_row(day, r, used)), "order of the columns")
    t.equal(len(stats.data), len(rows), "rows when read again")
    t.count("records", len(rows))
    t.count("records with a size", sum(r["size"] == r["size"] for r in rows))
    t.sig(how, len(rows), len(names), sum(r["job_success"] for r in rows))


def day_case(t):
    """From the bucket to the file of the day."""
    import pandas as pd
    mod, rng = load("statistics"), t.rng
    out, bucket = os.path.join(t.dir, "out"), os.path.join(t.dir, "bucket")
    os.makedirs(bucket)
    names, sizes = size_db(t, os.path.join(t.dir, "db"), False)
    days, asked = [], []
    start = date(2018, rng.randint(1, 12), rng.randint(1, 28))
    width = rng.randint(1, 5)
    days = [start + timedelta(days=i) for i in range(width)]
    wanted = {}
    for d in days:
        records = [job_record(rng, names) for _ in range(rng.randint(1, 40))]
        with gzip.open(os.path.join(bucket, "year%d_month%d_day%d.json.gz" % (d.year, d.month, d.day)), "wt") as f:
            for r in records:
                f.write(json.dumps(r) + "\n")
        wanted[d] = [job_row((d.year, d.month, d.day), r, sizes) for r in records]

    class Minio(object):
        def __init__(self, url, **kw):
            asked.append((url, kw.get("access_key"), kw.get("secret_key")))

        def fget_object(self, place, name, target):
            if place != "b1":
                raise mod.ResponseError("no bucket " + place)
            with open(os.path.join(bucket, name), "rb") as src, open(target, "wb") as dst:
                dst.write(src.read())
    mod.Minio = Minio
    t.equal(list(mod.period("%d %d %d" % (start.year, start.month, start.day), width)), [(d.year, d.month, d.day) for d in days],
            "days of the period")
    if rng.random() < .5:
        run_main(mod, ["extract", "--out-folder", out, "-s", "%d %d %d" % (start.year, start.month, start.day), "-ws", width,
                       "--minio-config", "host:9000 key secret b1", "-j", rng.choice([1, 3]), "--file-size-db-path", os.path.join(t.dir, "db")])
        t.count("runs of the program")
    else:
        os.makedirs(out)
        for d in days:
            got = mod.make_stats((1, (d.year, d.month, d.day), out, "host:9000 key secret b1", os.path.join(t.dir, "db"), None))
            t.equal(tuple(got), (d.year, d.month, d.day), "day done")
        t.equal(set(asked), {("host:9000", "key", "secret")}, "server and account")
    t.equal(sorted(os.listdir(out)), sorted("results_%s.feather.gz" % d for d in days), "files written")
    for d in days:
        with gzip.open(os.path.join(out, "results_%s.feather.gz" % d)) as f:
            same_rows(t, pd.read_feather(f), wanted[d], "file of %s" % d)
    t.count("days", width)


def window_stats(rows):
    """What the statistics of a window have to be."""
    n, sizes = {}, {}
    for r in rows:
        n[r["filename"]] = n.get(r["filename"], 0) + 1
        if r["size"] == r["size"]:
            sizes.setdefault(r["filename"], r["size"])
    least = min(n.values())
    more = [c for c in n.values() if c > least]

    def mean(xs):
        xs = list(xs)
        return sum(xs) / len(xs) if xs else float("nan")

    def hist(xs):
        out = {}
        for x in xs:
            out[x] = out.get(x, 0) + 1
        return out

    def per(a, b):
        groups = {}
        for r in rows:
            groups.setdefault(r[a], set()).add(r[b])
        return mean(len(g) for g in groups.values())

    def time(key, proto=None):
        return sum(r[key] for r in rows if proto in (None, r["protocol"]))
    return {
        "num_requests": len(rows), "num_files": len(n), "mean_num_req_x_file": mean(n.values()), "mean_num_req_x_file_gmin": mean(more),
        "num_req_x_file_frequencies": hist(n.values()), "size_all_files": sum(sizes.values()) / GB,
        "size_file_1req": sum(s for f, s in sizes.items() if n[f] == least) / GB,
        "size_file_g1req": sum(s for f, s in sizes.items() if n[f] > least) / GB,
        "desc_file_sizes": hist(s // GB * 1000. if s >= GB else s // 1024. ** 2 for s in sizes.values()),
        "sizes_x_min_num_requests": {k: sum(s for f, s in sizes.items() if n[f] >= k) / GB for k in range(1, 21)},
        "num_users": len({r["user"] for r in rows}), "num_sites": len({r["site_name"] for r in rows}),
        "num_tasks": len({r["task_id"] for r in rows}), "num_jobs": len({r["job_id"] for r in rows}), "protocols": hist(r["protocol"] for r in rows),
        "all_cpu_time": time("cpu_time"), "all_io_time": time("io_time"), "local_cpu_time": time("cpu_time", "Local"),
        "local_io_time": time("io_time", "Local"), "remote_cpu_time": time("cpu_time", "Remote"), "remote_io_time": time("io_time", "Remote"),
        "mean_num_files_x_job": per("job_id", "filename"), "mean_num_files_x_task": per("task_id", "filename"),
        "mean_num_files_x_user": per("user", "filename"), "mean_num_jobs_x_task": per("task_id", "job_id"),
        "mean_num_jobs_x_user": per("user", "job_id"), "mean_num_tasks_x_user": per("user", "task_id")}


def same_stats(t, got, want, what):
    t.equal(sorted(got), sorted(want), what + ": statistics given")
    for key, w in want.items():
        g = got[key]
        if isinstance(w, dict):
            t.equal(sorted(g), sorted(w), "%s: cases of %s" % (what, key))
            for k in w:
                t.near(g[k], w[k], "%s: %s of %s" % (what, key, k))
        else:
            t.check(g == w or g != g and w != w or abs(g - w) <= 1e-9 * max(1, abs(w)), "%s: %s is %r instead of %r", what, key, g, w)


def window_case(t):
    import pandas as pd
    mod, rng = load("statistics"), t.rng
    folder = os.path.join(t.dir, "in")
    os.makedirs(folder)
    names = ["/store/data/R/P/AOD/s/%d.root" % i for i in range(rng.choice([1, 5, 60]))]
    sizes = {n: float(rng.choice([1024 ** 3, 1024 ** 3 - 1, 1024 ** 2, rng.randint(1, 1024 ** 2), rng.randint(1, 9 * 1024 ** 3)]))
             for n in names if rng.random() < .9}
    files, day = [], date(2018, rng.randint(1, 12), 1)
    for _ in range(rng.randint(1, 9)):
        rows = [job_row((day.year, day.month, day.day), job_record(rng, names), sizes) for _ in range(rng.randint(1, 60))]
        for r in rows:                             # not every record of a file has its size, or the same
            if rng.random() < .15:
                r["size"] = rng.choice([float("nan"), float("nan"), float(rng.randint(1, 9 * 1024 ** 3))])
        frame, kind = pd.DataFrame(rows), rng.choice(["feather", "csv"])
        with gzip.open(os.path.join(folder, "results_%s.%s.gz" % (day, kind)), "wb") as f:
            frame.to_feather(f) if kind == "feather" else f.write(frame.to_csv(index=False).encode())
        files.append((os.path.join(folder, "results_%s.%s.gz" % (day, kind)), rows))
        day += timedelta(days=1)
    width = rng.choice([1, 2, 3, 7])
    windows = [files[i:i + width] for i in range(0, len(files), width)]
    wanted = [window_stats([r for _, rows in w for r in rows]) for w in windows]
    if rng.random() < .4:
        for junk in ("statistics.html", "tmp_2018-1-1.json.gz", "other.csv.gz", "results_a.txt"):
            open(os.path.join(folder, junk), "w").close()
        got, plot = [], mod.plot_windows
        mod.plot_windows = lambda windows, folder, dpi: got.append((list(windows), folder))
        try:
            run_main(mod, ["plot", "--result-folder", folder, "-ws", width, "-j", rng.choice([1, 2, 4])])
        finally:
            mod.plot_windows = plot
        t.equal((len(got), got and got[0][1]), (1, folder), "plots made")
        got = got[0][0]
        t.count("runs of the program")
    else:
        got = [mod.make_dataframe_stats(([f for f, _ in w], i, 0)) for i, w in enumerate(windows)]
    t.equal(len(got), len(wanted), "windows")
    for i, (g, w) in enumerate(zip(got, wanted)):
        same_stats(t, g, w, "window %d" % i)
    t.count("windows", len(windows))
    t.sig(len(names), width, tuple(w["num_requests"] for w in wanted))
    t.sample({"windows": len(windows), "requests": [w["num_requests"] for w in wanted], "files": [w["num_files"] for w in wanted]})


@register("C66", quick=300, deep=6000, timeout=200, need=("records with a size", "sets another process is loading", "windows", "days"),
          rule="The table made of job records holds each record once, in order, with the values and the size that follow from the record "
               "and the size databases, whichever store is in between; the figures of a window are those counted from its rows.")
def c66(t):
    kind = t.case % 6
    if kind < 3:
        extraction_case(t, ["none", "sqlite", "redis"][kind] if kind else t.rng.choice(["none", "sqlite", "redis"]))
    elif kind == 3:
        day_case(t)
    else:
        window_case(t)
