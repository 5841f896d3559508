"""The dashboard of the results (C67): its callbacks run under a small stand-in of Dash, along histories of what a user does."""
import csv
import functools
import io
import math
import os
import re
import sys

import dash
import pcheck
from dash._record import Component, walk
from p_probe import (ALGOS, BASIC, OPTIONAL, ORDER, ORDER_ROH, PARTS, RESULT, after_delete, load, make_log, measures, ratio, result_rows, run, write_csv)
from pcheck import register

AGENT = ["Addition epsilon", "Eviction epsilon", "Addition qvalue function", "Eviction qvalue function", "Eviction calls", "Eviction forced calls",
         "Eviction mean num categories", "Eviction std dev num categories", "Action store", "Action not store", "Action delete all",
         "Action delete half", "Action delete quarter", "Action delete one", "Action not delete"]
AGENT_PLOTS = {"Epsilon": AGENT[0:2], "QValue": AGENT[2:4], "Eviction calls": AGENT[4:6], "Eviction categories": AGENT[6:8], "Addition actions": AGENT[8:10],
               "Eviction actions": AGENT[10:15]}
COLUMNS = RESULT[1:] + ["CPU efficiency upper bound", "CPU efficiency lower bound"] + AGENT
TB = 1024. ** 2
PANES = ["graphs-columns.children", "graphs-measures.children", "graphs-agents.children", "table.children", "compare.children", "compare-tables.children"]


def per_day(*names):
    def deco(fun):
        return names, fun
    return deco


MEASURES = {
    "Throughput ratio": (("read on hit data", "written data", "cache size"), lambda h, w, s: ratio(h - w, s)),
    "Cost ratio": (("written data", "deleted data", "cache size"), lambda w, d, s: ratio(w + d, s)),
    "Throughput (TB)": (("read on hit data", "written data"), lambda h, w: (h - w) / TB),
    "Cost (TB)": (("written data", "deleted data"), lambda w, d: (w + d) / TB),
    "Read on hit ratio": (("read on hit data", "read data"), lambda h, r: ratio(h, r) * 100.),
    "CPU Eff.": (("CPU efficiency",), lambda c: c),
    "Avg. Free Space": (("avg free space", "cache size"), lambda v, s: ratio(v, s) * 100.),
    "Std. Dev. Free Space": (("std dev free space", "cache size"), lambda v, s: ratio(v, s) * 100.),
    "Bandwidth": (("bandwidth usage",), lambda b: b),
    "Redirect Vol.": (("size redirected", "cache size"), lambda v, s: ratio(v, s) * 100.),
    "Hit over Miss": (("read on hit data", "read on miss data"), ratio),
    "Num. miss after del.": (("num miss after delete",), lambda n: n),
    "Hit rate": (("hit rate",), lambda h: h),
}


class Page(object):
    """What a browser does: keeps the values of the page and calls what depends on a changed one."""

    def __init__(self, app):
        self.app, self.values = app, {}
        for part in walk(app.layout):
            name = part.kwargs.get("id")
            if name:
                self.ids = getattr(self, "ids", []) + [name]
                for key in ("value", "children"):
                    if key in part.kwargs:
                        self.values["%s.%s" % (name, key)] = part.kwargs[key]

    def change(self, key, value):
        self.values[key] = value
        hit = [c for c in self.app.callbacks if key in c["inputs"]]
        dash.callback_context.triggered = [{"prop_id": key, "value": value}]
        for call in hit:
            got = call["run"](*[self.values.get(k) for k in call["inputs"] + call["states"]])
            outs = call["outputs"]
            if call["single"]:
                got = [got]
            if len(got) != len(outs):
                raise pcheck.Fail("a change of %s gives %d values for %d parts of the page" % (key, len(got), len(outs)))
            for out, new in zip(outs, got):
                self.values[out] = new
        return len(hit)


def number(v):
    v = float(v)
    return "nan" if v != v else "%.9g" % v


def line(x, y):
    return [str(v)[:10] for v in x], [number(v) for v in y]


def graphs(part):
    return [c.kwargs.get("figure") if "figure" in c.kwargs else c.args[0] for c in walk(part) if c.kind == "dcc.Graph"]


def title(fig):
    got = fig.layout.get("title")
    return got.get("text") if isinstance(got, dict) else got


def texts(part):
    """The texts and numbers below a part of the page, in order."""
    if isinstance(part, Component):
        for x in list(part.args) + ([part.kwargs["children"]] if "children" in part.kwargs else []):
            yield from texts(x)
    elif isinstance(part, (list, tuple)):
        for x in part:
            yield from texts(x)
    elif part is not None and part != "":
        yield part


def grow(t, rng):
    """Run folders below one or two bases: {result file: (parts, rows, columns, log)}."""
    out, bases = {}, []
    for name in rng.choice([["exp"], ["x"], ["run"], ["ra", "rb"], ["exp", "other"]]):
        base = os.path.join(t.dir, name)
        os.mkdir(base)
        bases.append(base)
        for _ in range(rng.choice([1, 2, 3, 4, 6])):
            parts = [name] + [rng.choice(["groupA", "groupB", name, "xr", "T"]) for _ in range(rng.choice([0, 0, 1, 2]))] + [rng.choice(ALGOS)]
            key = "/".join(parts + ["simulation_results.csv"])
            if key in out:
                continue
            os.makedirs(os.path.join(t.dir, *parts), exist_ok=True)
            have = [c for c in RESULT if c not in OPTIONAL or rng.random() < .95]
            rows = result_rows(rng, rng.choice([1, 2, 4, 7]), have)
            extra = ["CPU efficiency upper bound", "CPU efficiency lower bound"] if rng.random() < .7 else []
            extra += AGENT if parts[-1].startswith("aiRL") else []
            for r in rows:
                r.update({c: round(rng.random() * 50, 3) for c in extra})
            have = have + extra
            write_csv(os.path.join(t.dir, key), rows)
            log = None
            if rng.random() < .6:
                log = make_log(rng, rng.choice([1, 5, 20, 40]))
                write_csv(os.path.join(t.dir, os.path.dirname(key), "simulationLogFile.csv.gz"), log)
            out[key] = (parts, rows, have, log)
    return bases, out


@register("C67", quick=260, deep=3600, rule="A case opens the dashboard on a tree of runs and goes through a history of selections, tabs and choices; a situation is "
          "(runs, selected, shown, tab, number of results, toggles, seen before).",
          need=["columns", "measures", "agents", "table", "compare", "shown again", "filtered", "no run left", "one run left", "top runs", "more than there are",
                "downloads", "shorter table after a longer one", "purge shown", "no such tick", "no such simulation", "panel opened", "panel closed", "all selected",
                "none selected", "several trees", "same components for all as for any", "table choices on while comparing", "from the command", "extended", "by read on hit",
                "folder named as its tree", "files and filters"])
def dashboard(t):
    rng = t.rng
    sys.modules.pop("probe.results.dashboard", None)    # its temporary files belong to this case
    data, dashboards = load("results.data"), load("results.dashboard")
    bases, runs = grow(t, rng)
    if len(bases) > 1:
        t.count("several trees")
    if any(parts[0] in parts[1:] for parts, *_ in runs.values()):
        t.count("folder named as its tree")
    host = rng.choice(["localhost", "10.1.2.3"])
    del dash.APPS[:]
    dash.callback_context.triggered = dash.Falsy([{"prop_id": ".", "value": None}])
    if rng.random() < .3:
        status, _ = run(t, "probe.results", "dashboard", *bases, "--dash-ip", host)
        t.equal(status, 0, "exit status of the dashboard command")
        t.count("from the command")
    else:
        dashboards.create(data.aggregate_results(bases), host)
    t.equal(len(dash.APPS), 1, "dashboards created")
    app = dash.APPS[0]
    t.check(app.served is not None and app.served.get("host") == host, "served with %s, asked for %s", app.served, host)
    page = Page(app)
    files = sorted(runs)
    t.equal(sorted(page.values["selected-files.value"]), files, "files selected at the start")
    parts_of = {k: {c for p in parts for c in PARTS.get(p, {p})} for k, (parts, *_) in runs.items()}
    components = sorted(set().union(*parts_of.values()))
    for c in walk(app.layout):
        if c.kwargs.get("id") in ("selected-files", "selected-filters-all", "selected-filters-any"):
            want = files if c.kwargs["id"] == "selected-files" else components
            t.equal(sorted(o["value"] for o in c.kwargs["options"]), want, "choices of " + c.kwargs["id"])
    page.values.update({"tabs.active_tab": "tab-files"})
    means = {k: measures(rows, have) for k, (_, rows, have, _) in runs.items()}

    def order(keys, by):
        def cmp(a, b):
            for name, sign in by:
                x, y = means[a][name], means[b][name]
                if x != x or y != y:
                    if x != x and y != y:
                        continue
                    return 1 if x != x else -1
                if x != y and not (math.isinf(x) and x == y) and not abs(x - y) <= 1e-9 * max(1, abs(x), abs(y)):
                    return -1 if (x - y) * sign < 0 else 1
            return 0
        ranked = sorted(keys, key=functools.cmp_to_key(cmp))
        ties = {i for i in range(1, len(ranked)) if cmp(ranked[i - 1], ranked[i]) == 0}
        return ranked, ties

    def best(keys, n, by=ORDER):
        """The first n runs, or None if it is not settled which these are."""
        if not n:
            return list(keys)
        ranked, ties = order(keys, by)
        t.count("top runs" if n < len(ranked) else "more than there are")
        if n in ties:
            return None
        return [k for k in keys if k in ranked[:n]]

    def names(keys):
        start = len(os.path.commonprefix(list(keys)))
        return {k: k[start:].replace("simulation_results.csv", "").strip("/") for k in keys}

    def same_lines(fig, want, what):
        got = sorted((tr["name"].strip("/"),) + line(tr["x"], tr["y"]) for tr in fig.data)
        t.check(got == sorted(want), "%s shows %s, expected %s", what, [(g[0], g[2][:3]) for g in got], [(w[0], w[2][:3]) for w in sorted(want)])

    def chosen():
        every, some = page.values["selected-filters-all.value"], page.values["selected-filters-any.value"]
        return [k for k in page.values["selected-files.value"] if set(every) <= parts_of[k] and (not some or set(some) & parts_of[k])]

    def days(key):
        return [r["date"][:10] for r in runs[key][1]]

    seen, shown_table, compared, longest = set(), None, None, 0

    def judge(tab):
        nonlocal shown_table, compared, longest
        keys, n = chosen(), page.values.get("num-of-results.value") or 0
        panes = {p: page.values.get(p) for p in PANES}
        mine = {"tab-columns": PANES[:1], "tab-measures": PANES[1:2], "tab-agents": PANES[2:3], "tab-table": PANES[3:4], "tab-compare": PANES[4:]}.get(tab, [])
        for p in PANES:
            if p not in mine:
                t.check(not list(walk(panes[p])), "%s is shown on the tab %s", p, tab)
        if not mine:
            return
        choice = (tab, tuple(page.values["selected-files.value"]), tuple(page.values["selected-filters-all.value"]), tuple(page.values["selected-filters-any.value"]), n,
                  page.values.get("toggle-extended-table.value"), page.values.get("toggle-sort-by-roh-first.value"))
        if choice in seen:
            t.count("shown again")
        seen.add(choice)
        t.count({0: "no run left", 1: "one run left"}.get(len(keys), "runs left"))
        t.count(tab[4:])
        if tab == "tab-columns":
            figs = graphs(panes[mine[0]])
            t.equal(sorted(title(f) for f in figs), sorted(COLUMNS), "columns plotted")
            for fig in figs:
                column = title(fig)
                have = best([k for k in keys if column in runs[k][2]], n)
                if have is not None:
                    called = names(have)
                    same_lines(fig, [(called[k],) + line(days(k), [r[column] for r in runs[k][1]]) for k in have], "the plot of " + column)
        elif tab == "tab-measures":
            figs = graphs(panes[mine[0]])
            t.equal([title(f) for f in figs], sorted(MEASURES), "measures plotted")
            have = best(keys, n)
            if have is not None:
                called = names(have)
                for fig in figs:
                    cols, fun = MEASURES[title(fig)]
                    want = []
                    for k in have:
                        _, rows, cs, _ = runs[k]
                        want.append((called[k],) + line(days(k), [fun(*(r[c] for c in cols)) if set(cols) <= set(cs) else 0. for r in rows]))
                    same_lines(fig, want, "the plot of " + title(fig))
        elif tab == "tab-agents":
            figs = graphs(panes[mine[0]])
            t.equal(sorted(title(f) for f in figs), sorted(AGENT_PLOTS), "agent plots")
            have = best([k for k in keys if "Addition epsilon" in runs[k][2]], n)
            if have is not None:
                called = names(have)
                for fig in figs:
                    want = []
                    got = []
                    for c in AGENT_PLOTS[title(fig)]:
                        want += [(called[k] + " " + c,) + line(days(k), [r[c] for r in runs[k][1]]) for k in have]
                    for tr in fig.data:
                        m = re.match(r"^(.*)\[(.*)\]$", tr["name"])
                        t.check(m, "a line of %s is called %r", title(fig), tr["name"])
                        got.append((m.group(1).strip("/") + " " + m.group(2),) + line(tr["x"], tr["y"]))
                    t.check(sorted(got) == sorted(want), "the agent plot %s shows %s, expected %s", title(fig), [g[0] for g in sorted(got)], [w[0] for w in sorted(want)])
        elif tab == "tab-table":
            tables = [c for c in walk(panes[mine[0]]) if c.kind == "dbc.Table"]
            t.equal(len(tables), 1, "tables shown")
            cols, rows = tables[0].kwargs["columns"], tables[0].kwargs["rows"]
            extended, first = bool(page.values.get("toggle-extended-table.value")), bool(page.values.get("toggle-sort-by-roh-first.value"))
            if extended:
                t.count("extended")
            if first:
                t.count("by read on hit")
            want = [c for c in means[files[0]] if extended or c in BASIC]
            t.equal(cols, ["file"] + want, "columns of the table")
            ranked, ties = order(keys, ORDER_ROH if first else ORDER)
            if n:
                t.count("top runs" if n < len(keys) else "more than there are")
            ranked = ranked[:n] if n else ranked
            t.equal(len(rows), len(ranked), "rows of the table")
            for i, key in enumerate(ranked):
                if i in ties or i + 1 in ties:
                    continue
                for c, got in zip(want, rows[i][1:]):
                    v = means[key][c]
                    t.check(repr(float(got)) == repr(v) if not math.isfinite(v) else abs(got - v) <= .501e-6 + 1e-9 * abs(v),
                            "row %d of the table (%s) has %s %r, expected %r", i, key, c, got, v)
            shown_table = (cols, rows)
            if len(rows) < longest:
                t.count("shorter table after a longer one")
            longest = max(longest, len(rows))
        elif tab == "tab-compare":
            compared = [k for k in keys if runs[k][3] is not None]
            if page.values.get("toggle-extended-table.value") or page.values.get("toggle-sort-by-roh-first.value"):
                t.count("table choices on while comparing")
            called = names(compared)
            purges = {k: after_delete(runs[k][3]) for k in compared}
            figs = graphs(panes[mine[0]])
            t.equal(len(figs), 1, "reports")
            want = []
            for k in compared:
                ticks = [w["row"]["tick"] for w in purges[k]]
                gone = [{r["filename"] for r in w["deleted"]} for w in purges[k]]
                want.append((called[k] + " - # del. files",) + line(ticks, [len(g) for g in gone]))
                want.append((called[k] + " - tot. Size (GB)",) + line(ticks, [int(math.fsum(r["size"] for r in w["deleted"]) / 1024. + 1e-9) for w in purges[k]]))
                want.append((called[k] + " - # req. after del.",) + line(ticks, [sum(r["action or event"] == "MISS" and r["filename"] in g for r in w["rest"])
                                                                                 for w, g in zip(purges[k], gone)]))
            same_lines(figs[0], want, "the report")
            by_id = {}
            for c in walk(panes[mine[1]]):
                if c.kwargs.get("id"):
                    by_id.setdefault(c.kwargs["id"], []).append(c)
            for i in range(len(runs)):
                t.equal([len(by_id.get(x % i, [])) for x in ("group-%d-toggle", "collapse-%d")], [1, 1], "panels number %d" % i)
            for i, k in enumerate(compared):
                label = " ".join(str(x) for x in texts(by_id["group-%d-toggle" % i][0]))
                head, _, name = label.partition("->")
                t.check(head.strip() == "[%d]" % i and name.strip().strip("/") == called[k], "panel %d is headed %r, expected run %r", i, label, called[k])
                body = [[v for td in walk(tr) if td.kind == "html.Td" for v in (list(texts(td)) or [""])] for tr in walk(by_id["collapse-%d" % i][0])
                        if tr.kind == "html.Tr" and any(td.kind == "html.Td" for td in walk(tr))]
                expect = []
                for w in purges[k]:
                    g = {r["filename"] for r in w["deleted"]}
                    expect.append([w["row"]["tick"], w["row"]["action or event"], len(g), int(math.fsum(r["size"] for r in w["deleted"]) / 1024. + 1e-9),
                                   sum(r["action or event"] == "MISS" and r["filename"] in g for r in w["rest"]), w["row"]["cache size"], w["row"]["cache capacity"]])
                t.same([[number(v) if not isinstance(v, str) else v for v in r] for r in body], [[number(v) if not isinstance(v, str) else v for v in r] for r in expect],
                       "table of the purges of " + k)
        t.sig(len(runs), len(keys), tab, min(n, 9), choice in seen)

    def downloads():
        cols, rows = shown_table
        app_routes = app.server.routes
        got = {k: app_routes["/table/" + k]()["content"] for k in ("csv", "tex", "html")}
        parsed = {"csv": [r for r in csv.reader(io.StringIO(got["csv"]))],
                  "tex": [[c.strip() for c in x.replace("\\\\", "").split("&")] for x in got["tex"].splitlines() if "&" in x],
                  "html": [re.findall("<td>(.*?)</td>", x) for x in got["html"].splitlines() if "<td>" in x]}
        for kind, lines in parsed.items():
            t.equal(len(lines), len(rows) + 1, "lines of the table downloaded as %s" % kind)
            t.equal(lines[0][-len(cols):], cols, "columns of the table downloaded as %s" % kind)
            for i, row in enumerate(rows):
                cells = lines[i + 1][-len(cols) + 1:] if len(cols) > 1 else []
                t.check([number(c or "nan") for c in cells] == [number(v) for v in row[1:]], "row %d of the table downloaded as %s is %s, shown is %s", i, kind, cells, row)
        t.check(got["html"].rstrip().endswith("</table>") and got["tex"].rstrip().endswith("{tabular}"), "the table downloaded ends with %r, %r", got["html"][-40:], got["tex"][-40:])
        t.count("downloads")

    def inspect():
        """A purge of the runs compared."""
        sim = rng.randrange(len(compared) + 1) if compared else 0
        events = after_delete(runs[compared[sim]][3]) if sim < len(compared) else []
        tick = rng.choice(events)["row"]["tick"] if events and rng.random() < .85 else 10 ** 6
        keys = ["sel-num-sim.value", "sel-tick.value"]
        for key, v in sorted(zip(keys, (sim, tick)), key=lambda _: rng.random()):
            page.change(key, v)
        panes = [page.values["sel-sim-compare-plot-" + p + ".children"] for p in ("actions", "actions-hist-numReq", "actions-hist-size", "actions-hist-deltaT", "after")]
        found = [w for w in events if w["row"]["tick"] == tick]
        if not found:
            t.count("no such simulation" if sim >= len(compared) else "no such tick")
            t.check(not any(graphs(p) for p in panes), "plots for tick %s of simulation %d, which has none", tick, sim)
            t.check(list(texts(panes[0])), "no message for tick %s of simulation %d", tick, sim)
            return
        w = found[0]
        acts = [r for r in runs[compared[sim]][3] if any(r is x for x in w["deleted"] + w["kept"])]
        later = [r for r in w["rest"] if r["action or event"] == "ADD"]
        figs = [graphs(p) for p in panes]
        t.equal([len(f) for f in figs], [1] * 5, "plots of tick %s of simulation %d" % (tick, sim))
        figs = [f[0].data[0] for f in figs]
        for fig, rows, what in ((figs[0], acts, "the deleted and kept files"), (figs[4], later, "the files added after")):
            got = [tuple(number(v) for v in p) for p in zip(fig["x"], fig["y"], fig["z"])]
            want = [tuple(number(r[c]) for c in ("num req", "size", "filename")) for r in rows]
            t.check(got == want, "the plot of %s at tick %s shows %s, expected %s", what, tick, got[:4], want[:4])
        for fig, column in ((figs[1], "num req"), (figs[2], "size")):
            t.equal(sorted(number(v) for v in fig["x"]), sorted(number(r[column]) for r in acts), "histogram of %s at tick %s" % (column, tick))
        delta = [r["delta t"] for r in acts]
        t.check(len(figs[3]["x"]) == len(delta) and all(v == g or v == max(delta) for v, g in zip(delta, figs[3]["x"])), "times since the last request at tick %s: %s, expected %s",
                tick, figs[3]["x"], delta)
        t.count("purge shown")

    opened = {}
    for step in range(rng.choice([6, 10, 16, 24])):
        what = rng.random()
        v = page.values
        if what < .12:
            v["selected-files.value"] = rng.sample(files, rng.randrange(0, len(files) + 1)) if rng.random() < .6 else list(files)
        elif what < .3:
            every = rng.sample(components, min(len(components), rng.choice([0, 0, 1, 1, 2])))
            some = rng.sample(components, min(len(components), rng.choice([0, 0, 1, 2])))
            if rng.random() < .4:
                # the same components, asked for in another way
                both = v["selected-filters-all.value"] + v["selected-filters-any.value"]
                cut = rng.randrange(0, len(both) + 1)
                every, some = sorted(set(both[:cut])), sorted(set(both[cut:]))
                if both:
                    t.count("same components for all as for any")
            v["selected-filters-all.value"], v["selected-filters-any.value"] = every, some
            if every or some:
                t.count("filtered")
                if len(v["selected-files.value"]) < len(files):
                    t.count("files and filters")
        elif what < .38:
            v["num-of-results.value"] = rng.choice([0, None, 1, 2, 3, 50])
        elif what < .45:
            button = rng.choice(["select", "unselect"])
            key = button + "-files.n_clicks"
            t.equal(page.change(key, (v.get(key) or 0) + 1), 1, "reactions to the button " + key)
            t.equal(sorted(v["selected-files.value"]), files if button == "select" else [], "files selected by the button " + key)
            t.count("all selected" if button == "select" else "none selected")
            if button == "unselect" and rng.random() < .7:
                v["selected-files.value"] = list(files)
            compared = None
            continue
        elif what < .55:
            key, head = rng.choice([("toggle-extended-table", "xtended"), ("toggle-sort-by-roh-first", "read on hit")])
            page.change(key + ".value", not v.get(key + ".value"))
            t.check(str(v[key + ".value"]) in str(v[key + "-output.children"]) and head in str(v[key + "-output.children"]), "the choice %s is shown as %r", v[key + ".value"],
                    v[key + "-output.children"])
            judge(v["tabs.active_tab"])
        elif what < .68 and compared is not None and v["tabs.active_tab"] == "tab-compare":
            inspect()
            continue
        elif what < .72:
            i = rng.randrange(len(runs))
            before = dict(opened)
            key = "group-%d-toggle.n_clicks" % i
            page.change(key, (v.get(key) or 0) + 1)
            opened[i] = not opened.get(i)
            for j in range(len(runs)):
                t.equal(bool(v.get("collapse-%d.is_open" % j)), bool(opened.get(j)), "panel %d open after a click on panel %d (before: %s)" % (j, i, bool(before.get(j))))
            t.count("panel opened" if opened[i] else "panel closed")
            continue
        if what < .38:
            # the choice shows when a tab is opened
            compared = None
            page.change("tabs.active_tab", "tab-" + rng.choice(["files", "filters"]))
            judge(v["tabs.active_tab"])
        tab = "tab-" + rng.choice(["columns", "measures", "agents", "table", "table", "table", "compare", "compare", "files"])
        page.change("tabs.active_tab", tab)
        judge(tab)
        if shown_table is not None and rng.random() < .5:
            downloads()
        if tab == "tab-compare" and rng.random() < .6:
            inspect()
    t.sample({"runs": len(runs), "logs": sum(r[3] is not None for r in runs.values()), "tabs shown": len(seen)})
