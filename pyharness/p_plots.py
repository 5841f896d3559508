"""The plot server of the cache study (C68): its routes are called along histories of what simulations send and users ask for."""
import contextlib
import copy
import gzip
import io
import json
import os
import pickle
import re
import runpy
import sys
import types
from datetime import date, timedelta

import flask
import numpy as np
import pcheck
from p_analysis import job_record, job_row, load, run_main, window_stats
from pcheck import register

SCRIPT = os.path.join(pcheck.REPO, "scripts/DataAnalysis/plot_server.py")
TABLES = ["hit_rate", "weighted_hit_rate", "hit_over_miss", "size", "written_data", "read_on_hit"]
BINS = 100


@contextlib.contextmanager
def drawn():
    """Other monitors replace bokeh by mocks; here its stand-in is what gets imported."""
    mocks = {n: sys.modules.pop(n) for n in list(sys.modules) if n.split(".")[0] == "bokeh"}
    try:
        yield
    finally:
        for n in list(sys.modules):
            if n.split(".")[0] == "bokeh":
                del sys.modules[n]
        sys.modules.update(mocks)


class Server(object):
    """The program, started as a user starts it; its data stays in the folder it runs in."""

    def __init__(self, t):
        self.t = t
        self.start()

    def start(self):
        with contextlib.redirect_stdout(io.StringIO()), drawn():
            runpy.run_path(SCRIPT, run_name="__main__")
        self.app = flask.RUNNING.pop()

    def ask(self, method, path, args=None, data=b""):
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            try:
                return self.app.ask(method, path, args, data)
            except Exception as err:
                raise pcheck.Fail("%s %s%s is answered with an error: %r" % (method, path, " " + repr(args) if args else "", err))


def send(obj):
    return gzip.compress(json.dumps(obj).encode("utf-8"))


def size_of(name):
    return [p for p in name.split("_") if p.endswith("T")][0]


def is_lru(name):
    return name.lower().startswith("lru")


def lines(page):
    """{cache: (colour, values)} of the one figure of a page, and its dividers."""
    fig = page["page"]
    out = {}
    for g in fig["drawn"]:
        name = g.get("legend") or g.get("legend_label")
        if name in out:
            raise pcheck.Fail("the cache %s has two lines in one plot" % name)
        if list(g["x"]) != list(range(len(g["y"]))):
            raise pcheck.Fail("the points of %s are at %s" % (name, g["x"]))
        out[name] = g["color"], g["y"]
    return out, [r["options"]["location"] for r in fig["renderers"] if r["kind"] == "Span"]


def flat(windows):
    return [v for w in windows for v in w]


def over(a, b):
    return [x / y if y != 0. else 0. for x, y in zip(a, b)]


class Model(object):
    def __init__(self):
        self.tables, self.info, self.known = {n: {} for n in TABLES}, {}, set()

    def put(self, table, cache, window, idx, value):
        mine = self.tables[table].setdefault(cache, [])
        if window == len(mine):
            mine.append([])
        if idx < len(mine[window]):
            mine[window][idx] = value
        else:
            mine[window].append(value)

    def peer(self, table, cache):
        return [flat(v) for n, v in table.items() if is_lru(n) and size_of(n) == size_of(cache) and
                n.split("_")[-1] == cache.split("_")[-1]][0]

    def plot(self, name):
        """{cache: values} a plot shows without filters."""
        if name in ("ratio", "diff", "diff_compare"):
            w, r = self.tables["written_data"], self.tables["read_on_hit"]
            both = {n: (flat(w[n]), flat(r[n])) for n in w}
            if name == "ratio":
                return {n: over(r, w) for n, (w, r) in both.items()}
            diff = {n: [[y - x for x, y in zip(w, r)]] for n, (w, r) in both.items()}
            if name == "diff":
                return {n: d[0] for n, d in diff.items()}
            return {n: [x - y for x, y in zip(d[0], self.peer(diff, n))] for n, d in diff.items() if not is_lru(n)}
        if name.endswith("_compare"):
            table = self.tables[name[:-len("_compare")]]
            out = {}
            for n, v in table.items():
                if not is_lru(n):
                    lru = self.peer(table, n)
                    out[n] = over([x - y for x, y in zip(flat(v), lru)], lru)
            return out
        return {n: flat(v) for n, v in self.tables[name].items()}


def session(t):
    rng = t.rng
    os.chdir(t.dir)
    server, model = Server(t), Model()
    sizes, regions = rng.sample(["10T", "20T", "100T", "5T"], rng.choice([1, 1, 2])), rng.sample(["it", "us", "all"], rng.choice([1, 1, 2]))
    caches = []
    for size in sizes:
        for region in regions:
            caches.append(rng.choice(["lru_%s_%s", "LRUCache_%s_%s", "Lru_%s_rpc_%s"]) % (size, region))
            kinds = ["WeightedCache_%s_f_e%d_%s", "weightFun_%s_exp%d_%s", "SizeCache_%s_v%d_%s"]
            for i in range(rng.choice([0, 1, 1, 2])):
                caches.append(rng.choice(kinds) % (size, i + 1, region))
    lrus = [c for c in caches if is_lru(c)]
    wins = rng.choice([1, 2, 3])

    def value():
        return rng.choice([0.0, round(rng.uniform(0, 100), 3), round(rng.uniform(0, 1e6), 2), round(rng.uniform(0, 1), 6)])

    def update():
        cache = rng.choice(caches)
        if rng.random() < .5 and not all(l in model.tables["hit_rate"] for l in lrus):
            cache = rng.choice(lrus)
        have = model.tables["hit_rate"].get(cache, [])
        window = rng.choice([max(0, len(have) - 1), len(have), rng.randrange(len(have) + 1)])
        window = min(window, wins - 1, len(have))
        filled = len(have[window]) if window < len(have) else 0
        first = rng.choice([filled, filled, filled, filled + 1, rng.randint(0, filled)])
        span = rng.choice([1, 1, 2, 5])
        body = {n: [(first + i, value()) for i in range(span)] for n in TABLES}
        if first + span <= filled and rng.random() < .3:
            body = {n: body[n] for n in rng.sample(TABLES, rng.randint(1, 3))}
        server.ask(rng.choice(["PUT", "POST"]), "/cache/update/%s/%d" % (cache, window), data=send(body))
        for n, pairs in body.items():
            for i, v in pairs:
                model.put(n, cache, window, i, v)
        t.count("values sent", span * len(body))
        t.count("values replaced" if first < filled else "values added")

    def single():
        table = rng.choice(["hit_rate", "size", "weighted_hit_rate", "hit_over_miss"])
        if not model.tables[table]:
            return
        cache = rng.choice(sorted(model.tables[table]))
        have = model.tables[table][cache]
        window = rng.randrange(len(have))
        idx, v = rng.randint(0, len(have[window]) - 1) if have[window] else 0, float(rng.randint(0, 999)) / 8
        server.ask(rng.choice(["PUT", "POST"]), "/cache/%s/%s/%d/%d/%r" % (table, cache, window, idx, v))
        model.put(table, cache, window, idx, v)
        t.count("single values sent")

    def plot():
        name = rng.choice(TABLES + ["ratio", "diff", "diff_compare", "written_data_compare", "read_on_hit_compare", "hit_rate_compare"])
        if name.endswith("_compare"):
            need = model.tables["written_data" if name == "diff_compare" else name[:-len("_compare")]]
            if any(not any(is_lru(o) and size_of(o) == size_of(n) and o.split("_")[-1] == n.split("_")[-1] for o in need) for n in need):
                return
        if any(len(model.tables["written_data"].get(c, [])) != len(v) for c, v in model.tables["read_on_hit"].items()):
            return
        wanted = model.plot(name)
        asked = None
        if rng.random() < .4:
            asked = rng.choice([[rng.choice(sizes)], [rng.choice(regions)], [rng.choice(sizes), rng.choice(regions)], ["lru"], ["Cache"], ["e1"], ["WeightedCache", rng.choice(sizes)],
                                ["none"]])
            wanted = {n: v for n, v in wanted.items() if all(f in n for f in asked)}
        if name == "diff_compare" and len(sizes) * len(regions) > len(sizes):
            # which of the LRU caches of one size is compared with is not said
            wanted = None
        got, marks = lines(json.loads(server.ask("GET", "/cache/plot/" + name, {"filter": ",".join(asked)} if asked else {})))
        if wanted is None:
            return
        what = "plot %s%s" % (name, " of the caches with %s in their names" % asked if asked else "")
        t.equal(sorted(got), sorted(wanted), "caches in the " + what)
        for n, (_, values) in got.items():
            t.equal(len(values), len(wanted[n]), "points of %s in the %s" % (n, what))
            for i, (a, b) in enumerate(zip(values, wanted[n])):
                t.near(a, b, "point %d of %s in the %s" % (i, n, what))
        if len(set(model.known) | set(got)) <= 10:
            t.equal(len(set(c for c, _ in got.values())), len(got), "colours of the %d lines of the %s" % (len(got), what))
        model.known |= set(got)
        base = model.tables["written_data" if name in ("ratio", "diff", "diff_compare") else re.sub("_compare$", "", name)]
        ends = set()
        for n in [n for n in base if all(f in n for f in asked or ())]:
            at, mine = 0, []
            for w in base[n]:
                at += len(w)
                mine.append(at)
            ends.add(tuple(mine if len(mine) > 1 else []))
        if got:
            t.check(tuple(marks) in ends, "the dividers of the %s are at %s, the windows end at %s", what, marks, sorted(ends))
            t.count("lines drawn", len(got))
            t.count("dividers drawn", len(marks))
        t.count("plots")
        t.sig(name, len(got), bool(asked))

    def files():
        """The contents of the caches after a window, sent for all of them."""
        window = rng.randrange(min([len(model.info.get(c, [])) for c in caches] + [2]) + 1)
        names = ["/store/%s/f%d" % (rng.choice(["mc", "data"]), i) for i in range(rng.choice([1, 3, 8, 20]))]
        big = {n: float(rng.choice([1, 10, 100, 1000, rng.randint(1, 4000)])) for n in names}
        for c in caches:
            stats = {}
            for n in names:
                hits, miss = rng.choice([0, 1, rng.randint(0, 9)]), rng.randint(0, 5)
                stats[n] = {"size": big[n], "totReq": hits + miss, "nHits": hits, "nMiss": miss}
            if rng.random() < .15:
                for s in stats.values():
                    s[rng.choice(["nHits", "nMiss"])] = 0
            ranks = rng.sample(range(1, 5000), len(names))
            obj = {"cache": {n: big[n] for n in names if rng.random() < .5}, "weights": {n: ranks[i] / 4. for i, n in enumerate(names)}, "stats": stats}
            server.ask(rng.choice(["PUT", "POST"]), "/cache/info/%s/%d" % (c, window), data=send(obj))
            mine = model.info.setdefault(c, [])
            if window < len(mine):
                mine[window] = obj
            else:
                mine.append(obj)
        t.count("contents sent", len(caches))

    def contents():
        have = min(len(model.info.get(c, [])) for c in caches)
        if not have or len(regions) > 1:
            return
        window = rng.randrange(have)
        asked = [rng.choice(sizes)] if rng.random() < .3 else None
        page = json.loads(server.ask("GET", "/cache/plot/info/%d" % window, {"filter": ",".join(asked)} if asked else {}))
        blocks = page["page"]["children"]
        shown = [c for c in caches if not is_lru(c) and (not asked or asked[0] in c)]
        t.equal(len(blocks), len(shown), "caches in the contents of window %d" % window)
        titles = []
        for block in blocks:
            figs = list(figures(block))
            name = [m.group(1) for m in (re.match(r"File in (\S+) \(", f["options"]["title"]) for f in figs) if m and m.group(1) in caches]
            t.equal(len(name), 1, "cache of a block of figures")
            name = name[0]
            titles.append(name)
            lru = [c for c in lrus if size_of(c) == size_of(name)][0]
            mine, other = model.info[name][window], model.info[lru][window]
            order = sorted(mine["weights"], key=lambda n: -mine["weights"][n])
            kinds = {}
            for f in figs:
                colours = set(g["color"] for g in f["drawn"]) - {"gainsboro"}
                t.equal(len(colours), 1, "colours of a figure of contents")
                kind = "files" if f["options"]["title"].startswith("File in") else "hits" if "of hits" in f["options"]["title"] else "miss"
                kinds[kind, colours.pop()] = f
            t.equal(sorted(kinds), sorted((k, c) for k in ("files", "hits", "miss") for c in ("blue", "red")), "figures of the contents of " + name)
            for (kind, colour), f in kinds.items():
                of = mine if colour == "blue" else other
                who = name if colour == "blue" else lru
                if kind == "files":
                    t.equal(f["options"]["x_range"], order, "files from the highest weight of %s on" % name)
                    back = [g for g in f["drawn"] if g["color"] == "gainsboro"]
                    front = [g for g in f["drawn"] if g["color"] != "gainsboro"]
                    t.equal((len(back), len(front)), (1, 1), "sets of bars of the files of %s" % who)
                    t.equal(dict(zip(back[0]["x"], back[0]["top"])), mine["weights"], "weights shown behind the files of " + who)
                    t.equal(dict(zip(front[0]["x"], front[0]["top"])), {n: mine["weights"][n] if n in of["cache"] else 0 for n in order},
                            "bars of the files that are in %s" % who)
                else:
                    key = "nHits" if kind == "hits" else "nMiss"
                    g = f["drawn"][0]
                    lo, hi = min(s["size"] for s in mine["stats"].values()), max(s["size"] for s in mine["stats"].values())
                    if lo == hi:
                        lo, hi = lo - .5, hi + .5
                    t.equal(len(g["top"]), BINS, "bars of the sizes")
                    t.equal((len(g["left"]), len(g["right"])), (BINS, BINS), "ends of the bars of the sizes")
                    t.near(g["left"][0], lo, "smallest size shown for " + who)
                    t.near(g["right"][-1], hi, "largest size shown for " + who)
                    total = sum(s[key] for s in of["stats"].values())
                    t.near(sum(g["top"]), 1. if total else 0., "sum of the shares of %s by size of %s" % (kind, who))
                    edges = g["left"] + g["right"][-1:]
                    at = 0.
                    share = {}
                    for s in of["stats"].values():
                        share[s["size"]] = share.get(s["size"], 0) + (s[key] / total if total else 0)
                    # the shares up to each edge which no size lies on
                    for i in range(1, BINS):
                        at += g["top"][i - 1]
                        e = edges[i]
                        if all(abs(e - z) > 1e-6 * (1 + abs(z)) for z in share):
                            t.near(at, sum(v for z, v in share.items() if z < e), "share of %s of files below %.6g MB in %s" % (kind, e, who))
            t.count("blocks of contents")
        t.equal(sorted(titles), sorted(shown), "caches in the contents of window %d" % window)

    def status():
        got = server.ask("GET", "/cache/service/status")
        t.equal(got["status"], "online", "status")
        for key, table in (("hit_rate", "hit_rate"), ("size", "size"), ("written_data", "written_data")):
            t.equal(got["num_cache_%ss" % key if key != "written_data" else "num_cache_written_data"], len(model.tables[table]), "caches with values of " + table)
            t.equal(sorted(got["len_window_cache_" + key]), sorted("[%s][window %d][len %d]" % (c, i, len(w)) for c, v in model.tables[table].items() for i, w in enumerate(v)),
                    "windows with values of " + table)
        t.equal(got["num_cache_window_info"], len(model.info), "caches with contents")
        t.equal(sorted(re.sub(r"\[len.*", "", x) for x in got["len_window_cache_info"]), sorted("[%s][window %d]" % (c, i) for c, v in model.info.items() for i in range(len(v))),
                "windows with contents")
        t.count("status asked")

    steps = rng.choice([6, 12, 24, 40]) if not t.deep else rng.choice([12, 40, 80])
    for _ in range(steps):
        what = rng.random()
        if what < .36:
            update()
        elif what < .42:
            single()
        elif what < .75:
            plot()
        elif what < .82:
            files()
        elif what < .89:
            contents()
        elif what < .93:
            status()
        elif what < .97:
            server.start()
            model.known = set()
            t.count("restarts")
            status()
        else:
            server.ask("DELETE", "/cache/plot")
            model.__init__()
            t.count("deletions")
            status()
    t.sample({"caches": len(caches), "steps": steps})


def figures(part):
    if part["kind"] == "figure":
        yield part
    for c in part.get("children", ()):
        yield from figures(c)


register("C68", quick=300, deep=4000, rule="seeded histories of what up to twelve simulations send and users ask", need=["plots"])(session)


# The figures of the two studies

class Axes(object):
    def __init__(self):
        self.label = self.title = ""
        self.lines, self.marks, self.bars, self.heat, self.limits, self.scale = [], [], [], [], {}, None

    def plot(self, x, y, **kw): self.lines.append((kw.get("label"), list(x), list(y)))
    def set_ylabel(self, text, *_, **__): self.label = text
    def set_title(self, text, *_, **__): self.title = text
    def axvline(self, x, **_): self.marks.append(x)
    def bar(self, x, height, **kw): self.bars.append((kw.get("color"), list(x), list(height)))
    def set_ylim(self, *args, **_): self.limits["y"] = args
    def set_yscale(self, kind, **_): self.scale = kind

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *args, **kwargs: None


class Grid(object):
    def __init__(self, rows, cols, **_):
        self.shape = rows, cols

    def __getitem__(self, key):
        cells = []
        for k, n in zip(key, self.shape):
            if isinstance(k, slice):
                cells.append(range(*k.indices(n)))
            else:
                cells.append(range(k, k + 1))
            if not len(cells[-1]) or cells[-1][-1] >= n:
                raise IndexError("part %r of a grid of %r" % (key, self.shape))
        return self, cells[0], cells[1]


class Pyplot(object):
    """The current figure as pyplot keeps it: the same part of a grid is the same axes, until the figure is cleared."""
    GridSpec = Grid

    def __init__(self):
        self.parts, self.current, self.saved = [], None, {}

    def subplot(self, spec, **_):
        for old, axes in self.parts:
            if old[0] is spec[0] and old[1:] == spec[1:]:
                break
        else:
            # parts of other grids below it go, parts of the same one must not be covered
            for old, _ in self.parts:
                if old[0] is spec[0] and set(old[1]) & set(spec[1]) and set(old[2]) & set(spec[2]):
                    raise pcheck.Fail("two parts of a figure lie over each other")
            self.parts = [p for p in self.parts if p[0][0] is spec[0]]
            axes = Axes()
            self.parts.append((spec, axes))
        self.current = axes
        return axes

    def savefig(self, path, **_):
        self.saved[os.path.basename(str(path))] = copy.deepcopy([a for _, a in self.parts])

    def cla(self):
        if self.current is not None:
            self.current.__init__()

    def clf(self):
        self.parts, self.current = [], None

    def figure(self, *_, **__):
        self.clf()

    def close(self, *_):
        self.clf()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *args, **kwargs: None


class Frame(object):
    """The file statistics of a window; only their correlations are asked for."""
    def __init__(self, matrix): self.matrix = matrix
    def corr(self, *_, **__): return np.array(self.matrix)


def study_case(t):
    mod, rng = load("weight_function"), t.rng
    plt = mod.plt = Pyplot()

    def heatmap(corr, mask=None, ax=None, **_):
        (ax or plt.current).heat.append((corr.tolist(), None if mask is None else mask.tolist()))
    mod.sns = types.SimpleNamespace(set=lambda **_: None, set_style=lambda *_, **__: None, diverging_palette=lambda *_, **__: "colours", heatmap=heatmap)
    wins = [rng.choice([1, 2, 5, 30]) for _ in range(rng.choice([1, 1, 2, 4]))]
    sizes = rng.sample([10, 20, 100], rng.choice([1, 1, 2]))
    names = ["LRUCache_%dT%s" % (s, c) for s in sizes for c in ([""] if rng.random() < .7 else ["", "_cC"])]
    weighted = ["WeightedCache_%dT_%s_f_%se%d.0" % (s, rng.choice(["", "cC", "cC_cW"]), f, e) for s in sizes for f in rng.choice([["simple"], ["simple", "time"]])
                for e in rng.choice([[2], [1, 2]])]
    names += weighted
    if rng.random() < .5:
        rng.shuffle(names)
    results = {}
    files = ["f%d" % i for i in range(rng.choice([1, 3, 12]))]
    for name in names:
        size, hit, write, info = [], [], [], []
        for n in wins:
            size.append([round(rng.uniform(0, 1e5), 2) for _ in range(n)])
            hit.append([round(rng.uniform(0, 100), 3) for _ in range(n)])
            write.append([round(rng.uniform(0, 1e6), 1) for _ in range(n)])
            known = [f for f in files if rng.random() < .8]
            ranks = rng.sample(range(1, 999), len(known))
            k = rng.randint(1, 4)
            info.append({"cache": {f for f in known if rng.random() < .5}, "weights": dict(zip(known, [r / 2. for r in ranks])) if name in weighted else {},
                         "df": Frame([[round(rng.uniform(-1, 1), 3) for _ in range(k)] for _ in range(k)])})
        results[name] = size, hit, write, info
    path, out = os.path.join(t.dir, "simulation_results.pickle.gz"), os.path.join(t.dir, "plots")
    with gzip.open(path, "wb") as f:
        pickle.dump(results, f)
    run_main(mod, ["--plot-results", path, "--out-folder", out])
    lrus = [n for n in names if n not in weighted]
    t.equal(sorted(plt.saved), sorted(["simulation_result.png", "simulation_result_info_correlations.png"] + ["simulation_result_info_compare_%s.png" % n for n in lrus]),
            "figures written")
    t.check(os.path.isdir(out), "the folder of the figures is not made")
    ends = [sum(wins[:i + 1]) for i in range(len(wins))]
    main = plt.saved["simulation_result.png"]
    t.equal(sorted(a.label for a in main), ["Hit rate %", "MB Written", "Size (MB)"], "parts of the figure of the histories")
    for a in main:
        which = {"Size (MB)": 0, "Hit rate %": 1, "MB Written": 2}[a.label]
        t.equal(sorted(a.lines), sorted((n, list(range(ends[-1])), flat(r[which])) for n, r in results.items()), "lines of " + a.label)
        t.equal(sorted(a.marks), ends, "window ends marked in " + a.label)
    t.equal([a.limits.get("y") for a in main if a.label == "Hit rate %"], [(0, 100)], "range of the hit rates")
    for lru in lrus:
        part = plt.saved["simulation_result_info_compare_%s.png" % lru]
        t.equal(sorted(a.title.split("\n")[0] + "|" + a.title.split("window ")[1].split()[0] for a in part),
                sorted("%s|%d" % (n, i) for n in weighted for i in range(len(wins))), "parts of the comparison with " + lru)
        for a in part:
            name, i = a.title.split("\n")[0], int(a.title.split("window ")[1].split()[0])
            mine, what = results[name][3][i], "of %s in window %d compared with %s" % (name, i, lru)
            order = sorted(mine["weights"], key=lambda f: -mine["weights"][f])
            want = {"k": order, "r": [f for f in order if f in results[lru][3][i]["cache"]], "b": [f for f in order if f in mine["cache"]]}
            t.equal(sorted(c for c, _, _ in a.bars), sorted(c for c, f in want.items() if f), "sets of bars " + what)
            for colour, x, height in a.bars:
                t.equal((list(x), list(height)), ([order.index(f) for f in want[colour]], [mine["weights"][f] for f in want[colour]]), "bars %s %s" % (colour, what))
    part = plt.saved["simulation_result_info_correlations.png"]
    t.equal(sorted(a.title for a in part if a.heat), sorted(a.title for a in part), "parts of the correlations")
    t.equal(len(part), len(weighted) * len(wins), "parts of the correlations")
    for a in part:
        name, i = a.title.split("\n")[0], int(a.title.split("window ")[1].split()[0])
        t.equal(len(a.heat), 1, "matrices in a part")
        corr, mask = a.heat[0]
        t.equal(corr, results[name][3][i]["df"].matrix, "correlations of %s in window %d" % (name, i))
        t.equal([[bool(v) for v in r] for r in mask], [[c >= r for c in range(len(corr))] for r in range(len(corr))], "correlations left out")
    t.count("figures of studies", len(plt.saved))
    t.count("lines drawn", 3 * len(names))
    t.count("sets of weights drawn", len(lrus) * len(weighted) * len(wins))
    t.sig(len(lrus), len(weighted), len(wins))


BARS = {
    "Num. Requests": "num_requests", "Num. Files": "num_files", "Num. Request x file": "mean_num_req_x_file",
    "Num. Request x file (req > 1)": "mean_num_req_x_file_gmin", "Mean Num. Files x User": "mean_num_files_x_user",
    "Mean Num. Files x Task": "mean_num_files_x_task", "Mean Num. Files x Job": "mean_num_files_x_job", "Mean Num. Jobs x User": "mean_num_jobs_x_user",
    "Mean Num. Tasks x User": "mean_num_tasks_x_user", "Mean Num. Jobs x Task": "mean_num_jobs_x_task", "Size all files": "size_all_files",
    "Size files with 1 req": "size_file_1req", "Size files with req > 1": "size_file_g1req", "Num. users": "num_users", "Num. sites": "num_sites",
    "Num. tasks": "num_tasks", "Num. jobs": "num_jobs"}


def windows_case(t):
    import pandas as pd
    rng = t.rng
    with drawn():
        mod = load("statistics")
    with drawn():
        import bokeh.io, bokeh.layouts, bokeh.models, bokeh.plotting, bokeh.transform
        for name in list(vars(mod)):
            for lib in (bokeh.io, bokeh.layouts, bokeh.models, bokeh.plotting, bokeh.transform):
                if name in vars(lib) and not name.startswith("_") and name in "export_png column row ColumnDataSource FactorRange LabelSet Span figure output_file save cumsum factor_cmap".split():
                    setattr(mod, name, vars(lib)[name])
    folder = os.path.join(t.dir, "in")
    os.makedirs(folder)
    names = ["/store/data/R/P/AOD/s/%d.root" % i for i in range(rng.choice([1, 5, 40]))]
    sizes = {n: float(rng.randint(1, 9 * 1024 ** 3)) for n in names if rng.random() < .9}
    days, day = [], date(2018, rng.randint(1, 12), 1)
    for _ in range(rng.randint(1, 8)):
        rows = [job_row((day.year, day.month, day.day), job_record(rng, names), sizes) for _ in range(rng.randint(1, 40))]
        with gzip.open(os.path.join(folder, "results_%s.feather.gz" % day), "wb") as f:
            pd.DataFrame(rows).to_feather(f)
        days.append(rows)
        day += timedelta(days=1)
    width = rng.choice([1, 2, 3, 7])
    wanted = [window_stats([r for rows in days[i:i + width] for r in rows]) for i in range(0, len(days), width)]
    run_main(mod, ["plot", "--result-folder", folder, "-ws", width, "-j", rng.choice([1, 2])])
    with open(os.path.join(folder, "statistics.html")) as f:
        page = json.load(f)["page"]
    seen = {}
    for fig in figures(page):
        t.equal(len(fig["drawn"]), 1, "sets of bars in a figure")
        bar = fig["drawn"][0]
        data = bar["source"]["options"]["data"]
        t.equal((bar["x"], bar["top"]), ("x", "counts"), "columns the bars are drawn from")
        t.equal(fig["options"]["x_range"]["args"], data["x"], "places of the bars")
        t.equal(len(data["x"]), len(data["counts"]), "bars of a figure")
        for (window, label), value in zip(data["x"], data["counts"]):
            t.check((window, label) not in seen, "%s of %s is shown twice", label, window)
            seen[window, label] = value
    t.equal(sorted(seen), sorted(("Window %d" % i, label) for i in range(len(wanted)) for label in BARS), "bars shown")
    for (window, label), value in seen.items():
        want = wanted[int(window.split()[1])][BARS[label]]
        t.check(value == want or value != value and want != want or abs(value - want) <= 1e-9 * max(1, abs(want)), "%s of %s is drawn as %r instead of %r", label, window, value, want)
    t.count("pages of windows")
    t.count("bars drawn", len(seen))
    t.sig(len(wanted), width)


@register("C69", quick=600, deep=6000, timeout=200, need=("figures of studies", "pages of windows"),
          rule="two of three cases draw generated results of the weight function study, the third the statistics of generated days; every line, mark and bar is compared")
def c69(t):
    windows_case(t) if t.case % 3 == 2 else study_case(t)
