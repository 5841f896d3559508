"""The request statistics of the analysis tools (C60)."""
import collections
import os
import sys
from datetime import datetime, timedelta
from unittest.mock import MagicMock

from pcheck import register
from p_probe import requests, run, selection, stamp, write_csv

FIGS, WRITTEN = [], []


class Fig(object):
    """A figure that keeps what is drawn on it."""
    def __init__(self, *args, **kwargs):
        self.__dict__.update(kw=kwargs, title=kwargs.get("title", ""), renderers=[], drawn=[], other=MagicMock())
        FIGS.append(self)

    def _draw(self, kind, args, kwargs):
        kwargs.update(zip(("xs", "ys") if kind == "multi_line" else ("x", "y"), args))
        self.drawn.append((kind, kwargs))

    def multi_line(self, *args, **kwargs): self._draw("multi_line", args, kwargs)
    def scatter(self, *args, **kwargs): self._draw("scatter", args, kwargs)
    def vbar(self, *args, **kwargs): self._draw("vbar", args, kwargs)
    def add_layout(self, obj, *_, **__): self.renderers.append(obj)
    def __getattr__(self, name): return getattr(self.other, name)


def install():
    import p_probe
    p_probe.load("plotter")
    plot = sys.modules["bokeh.plotting"]
    plot.figure.side_effect = Fig
    sys.modules["bokeh.models"].Span.side_effect = lambda **kw: ("span", kw)
    sys.modules["bokeh.models"].ColumnDataSource.side_effect = lambda data=None, **_: dict(data or {})
    plot.output_file.side_effect = lambda name, **_: WRITTEN.append(("file", name))
    plot.save.side_effect = lambda *_, **__: WRITTEN.append(("saved",))
    plot.show.side_effect = lambda *_, **__: WRITTEN.append(("shown",))
    sys.modules["bokeh.io"].export_png.side_effect = lambda *_, filename=None, **__: WRITTEN.append(("png", filename))


def points(fig, kinds=("scatter",)):
    out = []
    for kind, kw in fig.drawn:
        if kind in kinds:
            out += list(zip(kw.get("x", ()), kw.get("y", ())))
    return sorted(out)


def lines(fig):
    out = []
    for kind, kw in fig.drawn:
        if kind == "multi_line":
            out += [(tuple(x), tuple(y)) for x, y in zip(kw["xs"], kw["ys"])]
    return sorted(out)


def figure_of(t, title):
    found = [f for f in FIGS if f.title == title]
    t.equal(len(found), 1, "figures titled %r" % title)
    return found[0]


def tables(t):
    rng = t.rng
    folder = os.path.join(t.dir, "in")
    os.mkdir(folder)
    os.chdir(t.dir)
    files, rows, day = {}, {}, datetime(2018, rng.randrange(1, 10), rng.randrange(1, 28))
    mixed = rng.random() < .4
    for _ in range(rng.choice([1, 2, 4, 6, 7, 8, 13, 14, 15, 21, 23])):
        day_rows = requests(rng, rng.choice([1, 2, 6, 15]), stamp(day), files, pool=rng.choice([3, 12, 40]), odd=False)
        for r in day_rows:
            r["JobStart"] = r["reqDay"] * 1000
        name = "results_" + (rng.choice("abc") if mixed else "") + day.strftime("%Y-%m-%d") + rng.choice([".csv.gz", ".csv"])
        write_csv(os.path.join(folder, name), day_rows)
        rows[name] = day_rows
        day += timedelta(days=rng.choice([1, 1, 1, 2, 9]))
    if mixed:
        t.count("names not in day order")
    return folder, rows


@register("C60", quick=700, deep=10000, rule="A case makes the daily or weekly statistics of one set of request tables by the command line; a situation is (statistics, days, "
          "days per period, files with one request, requests).",
          need=["daily", "weekly", "full week", "partial week", "periods", "one period", "file in two periods", "one request file", "two request file", "span of a period", "names not in day order", "only one region", "only one file type", "only one month"])
def stats(t):
    rng = t.rng
    install()
    del FIGS[:], WRITTEN[:]
    folder, rows = tables(t)
    left, chosen = selection(t, rng, rows)
    if not any(left.values()):
        left, chosen = rows, []
    rows = sorted((r for n in left for r in left[n]), key=lambda r: r["reqDay"])
    days = list(dict.fromkeys(r["reqDay"] for r in rows))
    kind = rng.choice(["dailystats", "weekstats"])
    out, label = rng.choice(["show", "html", "png"]), rng.choice(["stats", "abc"])
    every = rng.choice([0, 1, 2, 3, 7, 7, 10])
    options = ["--output-type", out, "--output-filename", label]
    if every != 7 or rng.random() < .5:
        options += ["--reset-stat-days", every]
    status, _ = run(t, "probe.analyzer", folder, kind, *(options + chosen))
    t.equal(status, 0, "exit status of " + kind)
    t.equal(WRITTEN, {"show": [("shown",)], "html": [("file", label + ".html"), ("saved",)], "png": [("png", label + ".png")]}[out], "what is shown or written")
    if kind == "weekstats":
        weeks(t, rows, days)
    else:
        daily(t, rows, days, every)
    t.sig(kind, len(days), every, len(rows))
    t.sample({"statistics": kind, "days": len(days), "requests": len(rows), "period": every})


def weeks(t, rows, days):
    full = len(days) // 7
    t.count("weekly")
    if len(days) % 7:
        t.count("partial week")
    want = collections.defaultdict(list)
    for i in range(full):
        t.count("full week")
        part = [r for r in rows if r["reqDay"] in days[7 * i:7 * i + 7]]
        for name, column in (("Num. users", "UserID"), ("Num. sites", "SiteName"), ("Num. jobs", "JobID"), ("Num. tasks", "TaskID"), ("Num. files", "Filename")):
            want[name].append(len({r[column] for r in part}))
        want["Num. requests"].append(len(part))
        counts = collections.Counter(r["Filename"] for r in part)
        want["Avg. num. req. per file"].append(len(part) / len(counts))
        more = [c for c in counts.values() if c > 1]
        want["Avg. num. req. per file (files > 1 req.)"].append(sum(more) / len(more) if more else None)
    got = {}
    for fig in FIGS:
        for what, kw in fig.drawn:
            if what == "vbar":
                data = kw["source"]
                t.equal(data["weeks"], ["week %d" % (i + 1) for i in range(full)], "weeks of " + kw["legend_label"])
                t.equal(list(fig.kw["x_range"]), data["weeks"], "range of " + kw["legend_label"])
                t.check(kw["legend_label"] not in got, "%s is drawn twice", kw["legend_label"])
                got[kw["legend_label"]] = list(data[kw["top"]])
    t.equal(sorted(got), ["Avg. num. req. per file", "Avg. num. req. per file (files > 1 req.)", "Num. files", "Num. jobs", "Num. requests", "Num. sites", "Num. tasks", "Num. users"],
            "what is drawn")
    for name, values in got.items():
        exp = want[name] if full else []
        t.check(len(values) == len(exp) and all((a != a) if b is None else abs(a - b) < 1e-9 * max(1, b) for a, b in zip(values, exp)), "%s is %s, expected %s", name, values, exp)


def daily(t, rows, days, every):
    t.count("daily")
    periods = [days] if not every else [days[i:i + every] for i in range(0, len(days), every)]
    t.count("periods" if len(periods) > 1 else "one period")
    where = {d: i for i, p in enumerate(periods) for d in p}
    seen, marks, resets, last = {}, [], [], None
    for n, r in enumerate(rows, 1):
        if r["reqDay"] != last:
            marks.append(n)
            if last is not None and where[last] != where[r["reqDay"]]:
                resets.append(n)
            last = r["reqDay"]
        seen.setdefault((where[last], r["Filename"]), []).append((n, r))
    marks.append(len(rows) + 1)
    if len({f for _, f in seen}) < len(seen):
        t.count("file in two periods")
    lines_of = {"Num. Requests": [], "Num. Users": [], "Num. Sites": []}
    delta, sizes, single, corr = [], [], [], {"sizes": [], "users": [], "sites": []}
    for reqs in seen.values():
        xs = tuple(n for n, _ in reqs)
        mb = [r["Size"] // 1024 ** 2 for _, r in reqs]
        users = [len({r["UserID"] for _, r in reqs[:i + 1]}) for i in range(len(reqs))]
        sites = [len({r["SiteName"] for _, r in reqs[:i + 1]}) for i in range(len(reqs))]
        corr["sizes"].append((len(reqs), mb[-1]))
        corr["users"].append((len(reqs), users[-1]))
        corr["sites"].append((len(reqs), sites[-1]))
        if len(reqs) == 1:
            t.count("one request file")
            single.append((xs[0], mb[0]))
            continue
        if len(reqs) == 2:
            t.count("two request file")
        lines_of["Num. Requests"].append((xs, tuple(range(1, len(xs) + 1))))
        lines_of["Num. Users"].append((xs, tuple(users)))
        lines_of["Num. Sites"].append((xs, tuple(sites)))
        delta += [(x, x - p) for x, p in zip(xs, (xs[0],) + xs)]
        sizes += zip(xs, mb)
    for title, want in lines_of.items():
        t.equal(lines(figure_of(t, title)), sorted(want), title)
    t.equal(points(figure_of(t, "Delta times")), sorted(delta), "distances between requests")
    t.equal(points(figure_of(t, "File sizes")), sorted(sizes), "sizes")
    t.equal(points(figure_of(t, "1 req. file sizes")), sorted(single), "sizes of the files with one request")
    for name, title in (("sizes", "correlation num. reqs. and file sizes"), ("users", "correlation num. reqs. and num. users"), ("sites", "correlation num. reqs. and num. sites")):
        t.equal(points(figure_of(t, title)), sorted(corr[name]), title)
    for title in ("Num. Requests", "Num. Users", "Num. Sites", "File sizes", "1 req. file sizes"):
        by = collections.defaultdict(list)
        for what, kw in figure_of(t, title).renderers:
            t.equal(kw.get("dimension"), "height", "a mark of " + title)
            by[kw.get("line_color")].append(kw["location"])
        t.equal(sorted(sorted(v) for v in by.values()), sorted([marks] + ([resets] if resets else [])), "marks of " + title)
        if resets:
            t.count("span of a period")
