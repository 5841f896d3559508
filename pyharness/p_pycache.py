"""The Python caches: evaluator (C48), comparison of two caches (C49), the LRU with statistics (C50), the model server (C51)."""
import gzip
import json
import os
import random
import sys
import types

from pcheck import register


class Reference:
    """What an evaluator cache must do, told by the files it stores in the order they matter."""

    def __init__(self, kind, limit):
        self.kind, self.limit = kind, limit
        self.files = []           # oldest first: by insertion (simple, fifo) or last use (lru)
        self.hit = self.miss = 0
        self.sizes, self.rates = [], []

    def update(self, name, insert):
        hit = name in self.files
        if hit:
            self.hit += 1
            if self.kind == "lru":
                self.files.remove(name)
                self.files.append(name)
        else:
            self.miss += 1
            if insert:
                if self.kind != "simple" and len(self.files) == self.limit:
                    self.files.pop(0)
                self.files.append(name)
        self.sizes.append(len(self.files))
        self.rates.append(100. * self.hit / (self.hit + self.miss))
        return hit


def judge(t, cache, ref, pool, what):
    t.equal(len(cache), len(ref.files), what + ": number of files")
    for name in pool:
        t.equal(bool(cache.check(name)), name in ref.files, f"{what}: presence of {name}")
    t.equal(cache.size_history, ref.sizes, what + ": history of the sizes")
    t.equal(len(cache.hit_rate_history), len(ref.rates), what + ": length of the hit rate history")
    for a, b in zip(cache.hit_rate_history, ref.rates):
        t.near(a, b, what + ": history of the hit rates")
    if ref.rates:
        t.near(cache.hit_rate, ref.rates[-1], what + ": hit rate")
    t.equal([s for s, _ in cache.history], ref.sizes, what + ": history")


@register("C48", quick=6400, deep=40000, timeout=60,
          rule="A case is one sequence of requests to an evaluator cache, judged after every one; a situation is (kind, size, files, "
               "requests, hits, resumed).",
          need=["simple", "fifo", "lru", "full", "not inserted", "hit", "resumed"])
def evaluator_caches(t):
    from SmartCache.ai.models.evaluator import FIFOCache, LRUCache, SimpleCache
    rng = t.rng
    kind = rng.choice(["simple", "fifo", "fifo", "lru", "lru", "lru"])
    cls = {"simple": SimpleCache, "fifo": FIFOCache, "lru": LRUCache}[kind]
    limit = rng.choice([1, 2, 3, 5, 20])
    pool = ["/f%d" % i for i in range(rng.choice([1, 2, limit, limit + 1, 2 * limit + 3]))]
    settings = {} if kind == "simple" else {"max_size": limit}
    cache, ref = cls(**settings), Reference(kind, limit)
    n = rng.choice([1, 5, 30, 120])
    bias = rng.choice([0, .3, .8])
    always = rng.choice([0, .3, .9])
    resumed = 0
    for i in range(n):
        name = pool[0] if rng.random() < bias else rng.choice(pool)
        insert = rng.random() >= always
        full = len(ref.files) == limit
        want = ref.update(name, insert)
        got = cache.update(name, **({} if insert and rng.random() < .5 else {"insert": insert}))
        t.equal(bool(got), want, f"{kind} of {limit}: hit of request {i}")
        judge(t, cache, ref, pool, f"{kind} of {limit} after request {i}")
        t.count("hit" if want else "inserted" if insert else "not inserted")
        if full and not want and insert and kind != "simple":
            t.count("full")
        if rng.random() < .04:
            # another cache resumed from the state of this one behaves as this one would
            old = cache
            state = json.loads(json.dumps(old.state)) if rng.random() < .5 else old.state
            if kind == "lru" and rng.random() < .5:
                cache = cls(state)
            else:
                cache = cls(state, **settings)
            t.equal(len(old), len(ref.files), "the cache a state was taken from")
            judge(t, cache, ref, pool, f"{kind} of {limit} resumed after request {i}")
            resumed += 1
            t.count("resumed")
    t.count(kind)
    t.sig(kind, limit, len(pool), n, ref.hit, resumed)
    t.sample({"kind": kind, "limit": limit, "files": len(pool), "requests": n, "hits": ref.hit, "resumed": resumed})


class Model:
    """Decides on a file by its own rule, and remembers what it was asked."""

    def __init__(self, rule):
        self.rule, self.asked = rule, []

    def predict(self, rows):
        rows = rows.tolist()
        self.asked.append(rows)
        return [self.rule(row) for row in rows]


class Plots:
    """Records what is drawn."""

    def __init__(self):
        self.curves, self.lines, self.saved, self.at = {}, {}, [], 0

    def subplot(self, rows, columns, index):
        self.at = index - 1
        return self

    def plot(self, xs, ys, **_):
        self.curves.setdefault(self.at, []).append((list(xs), list(ys)))

    def axvline(self, x):
        self.lines.setdefault(self.at, []).append(x)

    def savefig(self, filename, **_):
        self.saved.append(filename)

    def __getattr__(self, name):
        return lambda *args, **kwargs: None


@register("C49", quick=2800, deep=15000, timeout=60,
          rule="A case is one comparison of a cache with a model-driven cache over a data set; a situation is (kinds, size, requests, "
               "stride, leftover, days, resumed).",
          need=["plotted", "leftover", "several strides", "days", "no time", "resumed", "refused by the model", "accepted by the model"])
def comparison(t):
    from DataManager.collector.dataset.utils import SupportTable
    from SmartCache.ai.models.evaluator import Evaluator
    rng = t.rng
    kinds = rng.choice([("lru", "lru"), ("fifo", "lru"), ("LRU", "fifo"), ("simple", "simple"), ("simple", "lru"), ("fifo", "Simple")])
    limit = 1000 if "simple" in [k.lower() for k in kinds] else rng.choice([1, 2, 3, 8])
    settings = {} if limit == 1000 else {"max_size": limit}
    stride = rng.choice([1, 2, 3, 7, 100])
    n = rng.choice([1, 2, stride, stride + 1, 3 * stride, 40])
    n = min(n, 120)
    table = SupportTable()
    pool = []
    for i in range(rng.choice([1, 3, 12])):
        feats = {"a": rng.choice(["x", "y", "z"]), "b": rng.choice(["u", "v"])}
        for k, v in feats.items():
            table.insert("features", k, v)
        pool.append((f"/f{i}", feats))
    table.gen_indexes()
    accept = {}

    def rule(row):
        return accept.setdefault(tuple(row), rng.choice([0, 1, 1]))
    model = Model(rule)

    def data_set():
        out, now = [], 1530000000000 + rng.randrange(10**9)
        timed = rng.random()
        for _ in range(n):
            name, feats = rng.choice(pool)
            rec = {"data": {"FileName": name, "WrapCPU": rng.choice([0, 1.5, "2.25", 10])}, "features": feats}
            if timed < .8 or rng.random() < .5:
                rec["data"]["StartedRunningTimeStamp"] = now
            else:
                t.count("no time")
            now += rng.choice([0, 1000, 3600 * 1000, 3600 * 1000, 86400000, 86400001, 3 * 86400000, -1000])
            out.append(rec)
        return out

    refs = [Reference(k.lower(), limit) for k in kinds]
    cpu = [[], []]

    def play(recs):
        marks, since = [], None
        for i, rec in enumerate(recs):
            when = rec["data"].get("StartedRunningTimeStamp")
            if when is not None and (since is None or when - since > 86400000):
                marks.append(i)
                since = when
                if len(marks) > 1:
                    t.count("days")
            row = tuple(table.close_conversion("features", rec["features"], normalized=False, one_hot=True))
            ok = bool(accept[row])
            t.count("accepted by the model" if ok else "refused by the model")
            for ref, out, insert in zip(refs, cpu, (True, ok)):
                hit = ref.update(rec["data"]["FileName"], insert)
                out.append((out[-1] if out else 0) + (float(rec["data"]["WrapCPU"]) if hit else 0))
        return marks

    def asked(recs, what):
        rows = [table.close_conversion("features", r["features"], normalized=False, one_hot=True) for r in recs]
        t.equal([r for batch in model.asked for r in batch], rows, what + ": what the model was asked")
        t.check(all(len(b) == stride for b in model.asked[:-1]) and 0 < len(model.asked[-1]) <= stride, "%s: asked in groups of %r with stride %d", what,
                [len(b) for b in model.asked], stride)

    def curve(got, want, what):
        t.equal(len(got), len(want), what + ": length")
        for a, b in zip(got, want):
            t.near(a, b, what)

    def evaluator(recs):
        return Evaluator(iter(recs) if rng.random() < .5 else recs, model, table, cache_type=kinds[0], ai_cache_type=kinds[1],
                         cache_settings=settings, ai_stride=stride)
    recs = data_set()
    ev = evaluator(recs)
    resumed = 0
    if rng.random() < .5 or not hasattr(ev, "_compare"):
        # what the user sees: the three plots of a comparison
        plt = Plots()
        import SmartCache.ai.models.evaluator as module
        module.plt = plt
        ev.compare(filename="out.png")
        marks = play(recs)
        asked(recs, "comparison")
        t.equal(plt.saved, ["out.png"], "saved plots")
        for i, what in enumerate(["sizes", "hit rates", "wrap CPU"]):
            for j, name in enumerate(["cache", "model driven cache"]):
                xs, ys = plt.curves[i][j]
                want = (refs[j].sizes, refs[j].rates, cpu[j])[i]
                t.equal(list(xs), list(range(n)), f"requests on the plot of the {what}")
                curve(ys, want, f"plotted {what} of the {name}")
            t.equal(plt.lines.get(i, []), marks, "first requests of the days on a plot")
        seps = len(marks)
        t.count("plotted")
    else:
        names = [name for name, _ in pool]
        for turn in range(rng.choice([1, 2])):
            if turn:
                model.asked.clear()
                cpu[:] = [[], []]
                recs = data_set()
                ev = evaluator(recs)
                resumed += 1
                t.count("resumed")
            got = ev._compare(initial_values=got) if turn else ev._compare()
            what = "resumed comparison" if turn else "comparison"
            asked(recs, what)
            marks = play(recs)
            judge(t, got["cache"], refs[0], names, f"{what}: {kinds[0]} cache")
            judge(t, got["ai_cache"], refs[1], names, f"{what}: {kinds[1]} cache of the model")
            t.equal(got["separators"], marks, what + ": first requests of the days")
        seps = len(marks)
    if n % stride:
        t.count("leftover")
    if n > 2 * stride:
        t.count("several strides")
    t.sig(kinds, limit, n, stride, seps, resumed)
    t.sample({"caches": kinds, "limit": limit, "requests": n, "stride": stride, "hits": [r.hit for r in refs]})


@register("C50", quick=6000, deep=40000, timeout=60,
          rule="A case is one sequence of requests to the Python LRU, judged after every one; a situation is (size, files, requests, "
               "hits, deletions, refused).",
          need=["hit", "evicted", "several evicted", "larger than the cache", "size changed"])
def sized_lru(t):
    from SmartCache.pySim.cache import LRU
    rng = t.rng
    limit = rng.choice([1., 10., 100., 1000.])
    cache = LRU(limit) if rng.random() < .9 else LRU(size=limit)
    pool = {"/f%d" % i: float(rng.choice([1, 2, rng.randrange(1, 20), limit, limit / 2, limit / 4, limit + .5])) for i in range(rng.choice([1, 3, 10, 30]))}
    files, sizes = [], {}
    seen = {}
    hits = misses = refused = 0
    written = deleted = read = 0.
    n = rng.choice([1, 10, 60, 150])
    for i in range(n):
        name = rng.choice(sorted(pool))
        size = pool[name]
        hit = name in files
        if not hit and rng.random() < .1:
            size = pool[name] = float(rng.randrange(1, 30))
            t.count("size changed")
        t.equal(cache.check(name), hit, f"presence before request {i}")
        cache.get(name, size)
        read += size
        got = seen.setdefault(name, [0, 0])
        got[0 if hit else 1] += 1
        if hit:
            hits += 1
            files.remove(name)
            files.append(name)
            t.count("hit")
        else:
            misses += 1
            if size > limit:
                refused += 1
                t.count("larger than the cache")
            else:
                gone = 0
                while sum(sizes[f] for f in files) + size > limit:
                    out = files.pop(0)
                    deleted += sizes.pop(out)
                    gone += 1
                if gone:
                    t.count("several evicted" if gone > 1 else "evicted")
                files.append(name)
                sizes[name] = size
                written += size
        what = f"cache of {limit} after request {i} of {n}"
        for f in pool:
            t.equal(cache.check(f), f in files, f"{what}: presence of {f}")
        t.check(sum(sizes[f] for f in pool if cache.check(f)) <= limit, "%s: more than its size is stored", what)
        t.near(cache.hit_rate(), hits / (hits + misses), what + ": hit rate")
        for attr, want in (("_size", sum(sizes[f] for f in files)), ("_hit", hits), ("_miss", misses), ("_written_data", written),
                           ("_deleted_data", deleted), ("_read_data", read)):
            # counters without an accessor: judged under the name they have today, if it is still there
            t.near(getattr(cache, attr, want), want, f"{what}: {attr[1:].replace('_', ' ')}")
        st = getattr(cache, "_stats", None)
        if st is None:
            continue
        st = st.get_or_set(name, 0)
        t.equal([st.hit, st.miss, st.tot_requests], got + [sum(got)], what + f": statistics of {name}")
        t.equal(st.size, size, what + f": size of {name}")
    t.sig(limit, len(pool), n, hits, round(deleted), refused)
    t.sample({"limit": limit, "files": len(pool), "requests": n, "hits": hits, "deleted": deleted, "refused": refused})


# ---- the model that is trained in Python ---------------------------------------------


class Layer:
    def __init__(self, np, name, rows, cols, act, rng):
        self.name, self.act = name, act
        self.weights = [[rng.uniform(-2, 2) for _ in range(cols)] for _ in range(rows)]
        self.bias = [rng.uniform(-2, 2) for _ in range(cols)]
        self.np = np

    def get_weights(self):
        return self.np.array(self.weights), self.np.array(self.bias)


class Keras:
    def __init__(self, np, layers, rng):
        self.np, self.layers, self.rng, self.asked = np, layers, rng, []

    def get_config(self):
        return {"layers": [{"config": {"name": x.name, "activation": x.act}} for x in self.layers]}

    def get_layer(self, name):
        return next(x for x in self.layers if x.name == name)

    def predict(self, rows):
        out = []
        for row in rows.tolist():
            self.asked.append(row)
            rng = random.Random(repr(row))
            out.append([rng.random() for _ in self.layers[-1].bias])
        return self.np.array(out)




@register("C51", quick=1600, deep=8000, timeout=60,
          rule="A case is one network exported and asked; a situation is (layers, widths, classes, questions).",
          need=["exported", "asked one", "asked many", "stored", "not stored"])
def model_server(t):
    import numpy as np
    for name in ("grpc", "SmartCache.ai.service.ai_pb2", "SmartCache.ai.service.ai_pb2_grpc"):
        if name not in sys.modules:
            mod = types.ModuleType(name)
            sys.modules[name] = mod
            if name.endswith("ai_pb2"):
                class StorePrediction:
                    def __init__(self, store=False):
                        self.store = store
                mod.StorePrediction = StorePrediction
            if name.endswith("grpc"):
                mod.AIServiceServicer = object
            if "." in name:
                import SmartCache.ai.service
                setattr(SmartCache.ai.service, name.rsplit(".", 1)[1], mod)
    from SmartCache.ai.models.generator import CMSTest0ModelGenerator, DonkeyModel
    rng = t.rng
    widths = [rng.choice([1, 2, 5, 9]) for _ in range(rng.randrange(1, 5))] + [rng.choice([2, 2, 3, 6])]
    acts = ["sigmoid", "hard_sigmoid"]
    layers = [Layer(np, f"dense_{i}", a, b, rng.choice(acts), rng) for i, (a, b) in enumerate(zip(widths, widths[1:]))]
    layers[-1].act = "softmax"
    donkey, cms = DonkeyModel(), CMSTest0ModelGenerator()
    donkey._model = cms._model = keras = Keras(np, layers, rng)
    name = os.path.join(t.dir, "net.v1")
    t.check(donkey.export_weights(name) is donkey, "export gives the model")
    t.equal(os.listdir(t.dir), ["net.v1.dump.json.gz"], "exported files")
    with gzip.open(name + ".dump.json.gz") as f:
        got = json.load(f)
    t.same(got, {"name": "DonkeyModel", "layers": [
        {"name": x.name, "weights": {"shape": [len(x.weights), len(x.bias)], "values": x.weights},
         "bias": {"shape": [len(x.bias)], "values": x.bias}, "activation_function": x.act} for x in layers]}, "exported network")
    t.count("exported")

    def answer(row):
        out = keras.predict(np.array([row])).tolist()[0]
        return out.index(max(out))
    rows = [[float(rng.randrange(-50, 50)) for _ in range(widths[0])] for _ in range(rng.choice([1, 2, 9]))]
    want = [answer(r) for r in rows]
    for model in (donkey, cms):
        t.equal([int(x) for x in model.predict(np.array(rows))], want, "classes of several inputs")
        t.count("asked many")
    for row, cls in zip(rows, want):
        t.equal(int(donkey.predict_one(np.array(row))), cls, "class of one input")
        t.equal(int(cms.predict_single(np.array(row))), cls, "class of one input")
        t.count("asked one")
        request = types.SimpleNamespace(inputVector=row)
        store = donkey.AIPredictOne(request, None).store
        t.equal(store, cls == 1, f"answer to an input of class {cls}")
        t.count("stored" if store else "not stored")
    t.sig(widths, len(rows), want)
    t.sample({"widths": widths, "inputs": rows[:1], "classes": want})
