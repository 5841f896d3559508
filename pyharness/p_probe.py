"""The analysis tools: loaders, converter, results, deletion logs, feature bins (C54-C57, C59) and the simulator dataset (C58)."""
import bisect
import contextlib
import csv
import gzip
import importlib
import io
import json
import math
import os
import pickle
import re
import runpy
import sys
from datetime import datetime, timedelta
from pathlib import Path
from unittest.mock import MagicMock

import numpy as np
import pandas as pd
import pcheck
from pcheck import Fail, register

if "probe" not in sys.modules:
    sys.path.insert(1, os.path.join(pcheck.REPO, "Probe"))
for name in ("seaborn bokeh bokeh.io bokeh.layouts bokeh.models bokeh.palettes bokeh.plotting bokeh.transform biokit biokit.viz").split():
    sys.modules.setdefault(name, MagicMock())
CPUS = [2]
os.cpu_count = lambda: CPUS[0]


def load(name):
    return importlib.import_module("probe." + name)


def run(t, module, *args):
    """Runs `python -m module args`; gives its exit status and its output."""
    out, status, argv = io.StringIO(), 0, sys.argv
    sys.argv = [module] + [str(a) for a in args]
    try:
        with contextlib.redirect_stdout(out):
            runpy.run_module(module, run_name="__main__")
    except SystemExit as err:
        status = 0 if err.code is None else err.code
    finally:
        sys.argv = argv
    return status, out.getvalue()


def bare(text):
    return re.sub(r"\x1b\[[0-9;]*[A-Za-z]", "", text)


SITES = ["T2_IT_Pisa", "T2_IT_Bari", "T1_US_FNAL", "T2_US_MIT", "T2_it_Rome", "T3_UK_ScotGrid_IT", "T1_FR_CCIN2P3", "XT2_ITA_x"]
TYPES = ["data", "mc", "user", "relval"]
CAMPAIN = ["Run2018A", "Run2018B", "RunIIFall17", "data"]
PROCESS = ["DoubleEG", "SingleMuon", "TTToHadronic", "mc"]


def requests(rng, n, day, files=None, numeric=False, pool=12, odd=True):
    """n requests of a day: a file keeps its type, size and name."""
    files = files if files is not None else {}
    rows = []
    for _ in range(n):
        idx = rng.randrange(pool)
        if idx not in files:
            kind = rng.choice(TYPES)
            name = "/store/%s/%s/%s/MINIAOD/%04d.root" % (kind, rng.choice(CAMPAIN), rng.choice(PROCESS), idx)
            if odd and rng.random() < .1:
                name = name.replace("/store/" + kind, "/store/" + kind.upper())
            files[idx] = (name, kind, rng.choice([0, 1, 500, 1024 ** 2, 3 * 1024 ** 2 + 17, 750 * 1024 ** 2, 2 * 1024 ** 3, 9 * 1024 ** 3]))
        name, kind, size = files[idx]
        rows.append({"Filename": idx if numeric else name, "SiteName": SITES.index(rng.choice(SITES)) if numeric else rng.choice(SITES),
                     "DataType": TYPES.index(kind) if numeric else kind, "Size": size, "reqDay": day,
                     "JobSuccess": rng.random() < .8, "NumCPU": rng.randrange(1, 9), "WrapWC": round(rng.random() * 1000, 3),
                     "UserID": rng.randrange(5), "TaskID": rng.randrange(9), "JobID": rng.randrange(99)})
    return rows


def write_csv(name, rows, columns=None):
    with (gzip.open(name, "wt", newline="") if name.endswith("gz") else open(name, "w", newline="")) as f:
        out = csv.DictWriter(f, columns or list(rows[0]))
        out.writeheader()
        out.writerows(rows)


def day_of(rng, month=None):
    return datetime(2018, month or rng.randrange(1, 13), rng.randrange(1, 29))


def stamp(day):
    return int((day - datetime(1970, 1, 1)).total_seconds())


def records(frame, columns):
    return [tuple(r) for r in zip(*(frame[c].tolist() for c in columns))]


# -- C54 ---------------------------------------------------------------------
@register("C54", quick=3200, deep=24000, rule="A case loads one folder or file of request tables by each way of loading; a situation is "
          "(files, formats, region, type, month, way, rows kept).",
          need=["folder", "single file", "region", "type", "month", "numeric sites", "nothing kept", "empty folder", "generated",
                "concatenated", "listed", "refused file", "other files ignored", "empty table"])
def loaders(t):
    rng = t.rng
    lib = load("loaders")
    folder = os.path.join(t.dir, "in")
    os.mkdir(folder)
    numeric = rng.random() < .2
    tables, files = {}, {}
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
        day = day_of(rng, rng.choice([1, 2, 10, None]))
        name = rng.choice(["results_", "results_", "results_numeric", "results_numeric_it_"]) + day.strftime("%Y-%m-%d") + \
            rng.choice(["", "", "", "", "-part1", "-02", "_it"]) + rng.choice([".csv", ".csv.gz"])
        if name in tables:
            continue
        rows = requests(rng, rng.choice([1, 2, 5, 9]), stamp(day), files, numeric)
        tables[name] = rows
    columns = list(requests(rng, 1, 0, {}, numeric)[0])
    if tables and not numeric and rng.random() < .15:
        tables[rng.choice(sorted(tables))] = []
        t.count("empty table")
    for name in sorted(tables, key=lambda _: rng.random()):
        write_csv(os.path.join(folder, name), tables[name], columns)
    for name in ("README.md", "container_it_.pickle"):
        if rng.random() < .3:
            Path(folder, name).write_bytes(b"not a table")
            t.count("other files ignored")
    region = rng.choice([None, "all", "it", "IT", "us", "fr", "de", ""])
    kind = rng.choice([None, "all", "data", "mc", "user", "Data", ""])
    month = rng.choice([-1, -1, -1, 1, 2, 10, 7])

    def kept(rows):
        out = []
        for r in rows:
            if not numeric and region and region != "all" and "_%s_" % region.lower() not in r["SiteName"].lower():
                continue
            if not numeric and kind and kind != "all" and "/%s/" % kind.lower() not in r["Filename"].lower():
                continue
            out.append(tuple(r[c] for c in columns))
        return out
    chosen = [n for n in sorted(tables) if month == -1 or datetime.strptime(re.search(r"\d{4}-\d\d-\d\d", n).group(), "%Y-%m-%d").month == month]
    want = [kept(tables[n]) for n in chosen]
    what = "with region=%r type=%r month=%r of %s" % (region, kind, month, {n: len(r) for n, r in tables.items()})

    def judge(frame, rows, ctx):
        if not len(rows) and not len(frame.index):
            t.check(True, "")
            return
        t.equal(records(frame, columns), rows, ctx)

    args = dict(region_filter=region, file_type_filter=kind, month_filter=month)
    t.count("folder")
    frame = lib.csv_data(folder, **args)
    t.check(isinstance(frame, pd.DataFrame), "csv_data did not give a table but %s", type(frame).__name__)
    judge(frame, [r for rows in want for r in rows], "the concatenated rows " + what)
    t.count("concatenated")
    parts = list(lib.csv_data(folder, concat=False, generate=True, **args))
    t.equal(len(parts), len(want), "number of generated tables " + what)
    for part, rows, name in zip(parts, want, chosen):
        judge(part, rows, "generated table of %s %s" % (name, what))
        if name.endswith("gz") and len(part.index):
            t.equal(sorted(set(part["day"].tolist())), [datetime.strptime(re.search(r"\d{4}-\d\d-\d\d", name).group(), "%Y-%m-%d")], "day of " + name)
    t.count("generated")
    listed = list(lib.gen_csv_data(folder, **args))
    t.equal(listed[0], len(tables), "number of files announced " + what)
    t.equal([os.path.basename(p) for p, _ in listed[1:]], chosen, "files listed " + what)
    for (path_, part), rows in zip(listed[1:], want):
        t.check(os.path.isfile(path_), "listed file %s does not exist", path_)
        judge(part, rows, "listed table of %s %s" % (path_, what))
    t.count("listed")
    if not tables:
        t.count("empty folder")
        t.equal(len(frame.index), 0, "rows of an empty folder")
    if not sum(map(len, want)) and tables:
        t.count("nothing kept")
    if tables:
        name = rng.choice(sorted(tables))
        rows = kept(tables[name])
        path_ = os.path.join(folder, name)
        judge(lib.csv_data(path_, region, kind), rows, "single file %s %s" % (name, what))
        (part,) = list(lib.csv_data(path_, region, kind, concat=False, generate=True))
        judge(part, rows, "single generated file %s %s" % (name, what))
        first, (same, part) = list(lib.gen_csv_data(path_, region, kind))
        t.equal((first, same), (1, path_), "listing of a single file")
        judge(part, rows, "single listed file %s %s" % (name, what))
        t.count("single file")
    both = rng.random() < .5
    t.raises(AssertionError, lambda: lib.csv_data(folder, concat=both, generate=both), "concatenating and generating alike")
    bad = os.path.join(t.dir, rng.choice(["x.csv.bz2", "x.json", "x.avro", "x.json.gz", "x", "x.gz"]))
    Path(bad).write_bytes(b"a,b\n1,2\n")
    t.raises(Exception, lambda: lib.csv_data(bad), "unsupported file " + bad)
    t.count("refused file")
    for flag, key in ((region and region != "all" and not numeric, "region"), (kind and kind != "all" and not numeric, "type"), (month != -1, "month"),
                      (numeric and tables, "numeric sites")):
        if flag:
            t.count(key)
    t.sig(len(tables), [n.endswith("gz") for n in sorted(tables)], region, kind, month, numeric, [len(w) for w in want])
    t.sample({"files": {n: len(r) for n, r in tables.items()}, "region": region, "type": kind, "month": month, "kept": [len(w) for w in want]})


# -- C55 ---------------------------------------------------------------------
STRINGS = ["Filename", "SiteName", "DataType", "Region", "Campain", "Process"]


@register("C55", quick=160, deep=2400, timeout=120, rule="A case converts one or two folders of request tables in one or more runs and queries the categories; "
          "a situation is (files, runs, options, categories, values).",
          need=["first run", "second run", "new files", "shuffled", "ordered", "filtered", "query categories", "query all", "query by value", "query one",
                "bad query", "dotted value", "already converted", "repeated file name", "order by seed", "different seeds"])
def converter(t):
    rng = t.rng
    CPUS[0] = rng.choice([1, 1, 2, 3])
    work = os.path.join(t.dir, "work")
    os.mkdir(work)
    os.chdir(work)
    region = rng.choice(["all", "all", "it", "us"])
    mode = rng.choice(["plain", "plain", "shuffle", "order"])
    ids, orders = {}, {}          # category -> value -> id, over all runs; size -> seed -> shuffled positions
    files = {}
    ordinal = 0
    runs = rng.choice([1, 2, 2, 3])
    for number in range(runs):
        folder = os.path.join(t.dir, "in%d" % number)
        os.mkdir(folder)
        tables, order = {}, os.path.join(t.dir, "order%d" % number)
        os.mkdir(order)
        for _ in range(rng.choice([1, 1, 2])):
            ordinal += 1
            day = datetime(2018, 1, 1) + timedelta(days=ordinal)
            name = "results_" + day.strftime("%Y-%m-%d") + rng.choice([".csv", ".csv.gz"])
            rows = requests(rng, 15 if mode == "shuffle" and rng.random() < .5 else rng.choice([1, 3, 7, 15]), stamp(day), files, pool=rng.choice([3, 12, 40]))
            if rng.random() < .3:
                for r in rows:
                    r["Region"] = r["SiteName"].split("_")[1].lower()
            if region == "all" or any("_%s_" % region in r["SiteName"].lower() for r in rows):
                tables[name] = rows
                write_csv(os.path.join(folder, name), rows)
        if not tables:
            continue
        kept, options = {}, ["--region", region]
        for name, rows in tables.items():
            out = []
            for r in rows:
                if region == "all" or "_%s_" % region in r["SiteName"].lower():
                    r = dict(r)
                    r.setdefault("Region", r["SiteName"].split("_")[1].lower())
                    _, _, _, r["Campain"], r["Process"] = r["Filename"].split("/")[:5]
                    out.append(r)
            kept[name] = out
            if len({r["Filename"] for r in out}) < len(out):
                t.count("repeated file name")
        if region != "all":
            t.count("filtered")
        seed = rng.choice([1, 42, 7])
        infix = region + "_"
        if mode == "shuffle":
            options += ["--shuffle", rng.choice(["true", "yes", "1", "T"]), "--seed", seed]
            infix = "%s_shuffle_%d" % (region, seed)
            t.count("shuffled")
        elif mode == "order":
            options += ["--order-folder", order]
            infix = region + "_avro_order_"
            skipped = None
            if len(tables) > 1 and rng.random() < .3:
                skipped = rng.choice(sorted(tables))
            for name in list(kept):
                if name == skipped:
                    continue
                # the order of the file names; the requests of one file keep their own order
                names = [r["Filename"] for r in kept[name]]
                rng.shuffle(names)
                write_csv(os.path.join(order, name.split(".")[0].replace("results_", "") + "_index.csv"), [{"FileName": n} for n in names])
                queue = {}
                for r in kept[name]:
                    queue.setdefault(r["Filename"], []).append(r)
                kept[name] = [queue[n].pop(0) for n in names]
            if skipped:
                del kept[skipped]
            t.count("ordered")
        rng.shuffle(options) if False else None
        t.count("first run" if not ids else "second run")
        status, _ = run(t, "probe.converter", folder, *options)
        t.equal(status, 0, "exit status of the converter")
        outputs = {n: n.replace("results_", "results_numeric_" + infix) for n in kept}
        t.equal(sorted(n for n in os.listdir(folder) if "numeric" in n), sorted(outputs.values()), "numeric files written")
        if ids:
            t.count("new files")
        before = json.dumps(ids, sort_keys=True)
        for name, out_name in outputs.items():
            with (gzip.open if out_name.endswith("gz") else open)(os.path.join(folder, out_name), "rt", newline="") as f:
                table = list(csv.DictReader(f))
            rows = kept[name]
            ctx = "%s (%s, region %s, run %d)" % (out_name, mode, region, number)
            t.equal(len(table), len(rows), "rows of " + ctx)
            plain = [c for c in rows[0] if c not in STRINGS]
            for c in STRINGS + plain:
                t.check(c in table[0], "column %s missing in %s", c, ctx)
            t.check("" not in table[0] and "index" not in table[0], "%s has an index column", ctx)

            def number_of(cell):
                return {"True": True, "False": False}[cell] if cell in ("True", "False") else float(cell)
            if mode == "shuffle":
                # the multiset of whole rows, then the ids by matching on unique numeric rows
                rest = {}
                for r in rows:
                    rest.setdefault(tuple(float(r[c]) if not isinstance(r[c], bool) else r[c] for c in plain), []).append(r)
                for got in table:
                    found = rest.get(tuple(number_of(got[c]) for c in plain))
                    t.check(found, "%s has a row no request has: %s", ctx, got)
                    if len(found) == 1:
                        take(t, ids, got, found[0], ctx)
                    found.append(found.pop(0))
                seen = {}
                for got in table:
                    key = tuple(number_of(got[c]) for c in plain)
                    seen[key] = seen.get(key, 0) + 1
                t.equal(seen, {k: len(v) for k, v in rest.items()}, "rows of " + ctx)
                for c in STRINGS:
                    counts, expect = {}, {}
                    for got in table:
                        counts[got[c]] = counts.get(got[c], 0) + 1
                    for r in rows:
                        expect[r[c]] = expect.get(r[c], 0) + 1
                    t.equal(sorted(counts.values()), sorted(expect.values()), "how often each value of %s appears in %s" % (c, ctx))
                place = {tuple(float(r[c]) if not isinstance(r[c], bool) else r[c] for c in plain): i for i, r in enumerate(rows)}
                moved = [place[tuple(number_of(got[c]) for c in plain)] for got in table]
                if len(place) == len(rows) >= 15:
                    t.check(moved != sorted(moved), "%s is not shuffled", ctx)
                    other = orders.setdefault(len(rows), {}).setdefault(seed, (moved, ctx))
                    t.equal(moved, other[0], "order of %s and of %s, same seed" % (ctx, other[1]))
                    for s, (m, c) in orders[len(rows)].items():
                        t.check(s == seed or m != moved, "%s and %s have the same order for different seeds", ctx, c)
                    t.count("order by seed")
                    if len(orders[len(rows)]) > 1:
                        t.count("different seeds")
            else:
                for i, (got, r) in enumerate(zip(table, rows)):
                    for c in plain:
                        t.equal(number_of(got[c]), r[c] if isinstance(r[c], bool) else float(r[c]), "column %s of row %d of %s" % (c, i, ctx))
                    take(t, ids, got, r, ctx + " row %d" % i)
        if rng.random() < .3 and mode != "shuffle":
            # a second conversion of a folder leaves what it wrote alone: run on a copy without the numeric files
            for n in outputs.values():
                blob = Path(folder, n).read_bytes()
                keep = os.path.join(t.dir, "kept-" + n)
                Path(keep).write_bytes(blob)
            one = sorted(outputs)[0]
            single_status, _ = run(t, "probe.converter", os.path.join(folder, one), *options)
            t.equal(single_status, 0, "exit status of converting a converted file")
            t.equal(Path(folder, outputs[one]).read_bytes(), Path(t.dir, "kept-" + outputs[one]).read_bytes(), "numeric file after converting again")
            t.count("already converted")
    if not ids:
        return
    container = "container_%s_.pickle" % region
    t.check(os.path.isfile(container), "no file of the categories %s", container)

    def query(text, *more):
        status, out = run(t, "probe.converter.inspect", container, text, *more)
        t.equal(status, 0, "exit status of query " + text)
        body = bare(out).split("=" * 42)[1]
        return json.loads(body)
    t.equal(sorted(query("categories")["keys"]), sorted(STRINGS), "categories listed")
    t.count("query categories")
    known = {}
    for c in STRINGS:
        got = query("all." + c)
        t.equal(list(got), [c], "answer to all." + c)
        known[c] = got[c]
        t.equal(list(got[c]), sorted(got[c]), "order of the answer to all." + c)
        for value, number in ids[c].items():
            t.equal(got[c].get(value), number, "id of %r in %s" % (value, c))
        t.equal(sorted(got[c].values()), list(range(len(got[c]))), "ids of " + c)
        t.count("query all")
    c = rng.choice(STRINGS)
    got = query("all." + c, "--sort-by-value", rng.choice(["true", "yes"]))
    t.equal(list(got[c].items()), sorted(known[c].items(), key=lambda kv: kv[1]), "answer by value to all." + c)
    t.count("query by value")
    for c in ("Filename", rng.choice(STRINGS)):
        value = rng.choice(sorted(known[c]))
        t.equal(query("valueOf.%s.%s" % (c, value)), {c: {value: known[c][value]}}, "answer to valueOf %s %r" % (c, value))
        t.count("query one")
        if "." in value:
            t.count("dotted value")
    bad = rng.choice(["nothing", "some.Filename", "all.Nothing", "valueOf.Filename.nothing", "valueOf.Nothing.x"])
    t.raises(Exception, lambda: query(bad), "query " + bad)
    t.count("bad query")
    t.sig(mode, region, runs, ordinal, {c: len(v) for c, v in ids.items()})
    t.sample({"mode": mode, "region": region, "runs": runs, "values": {c: len(v) for c, v in ids.items()}})


def take(t, ids, got, row, ctx):
    """The ids of a converted row agree with all those seen so far."""
    for c in STRINGS:
        number = int(got[c])
        column = ids.setdefault(c, {})
        if row[c] in column:
            t.equal(number, column[row[c]], "id of %r of column %s in %s" % (row[c], c, ctx))
        else:
            other = [v for v, k in column.items() if k == number]
            t.check(not other, "%s: column %s gives %r the id %d of %r", ctx, c, row[c], number, other and other[0])
            column[row[c]] = number


# -- C56 ---------------------------------------------------------------------
RESULT = ["date", "num req", "num hit", "num added", "num deleted", "num redirected", "size redirected", "cache size", "size", "capacity", "bandwidth",
          "bandwidth usage", "hit rate", "weighted hit rate", "written data", "read data", "read on hit data", "read on miss data", "deleted data",
          "avg free space", "std dev free space", "CPU efficiency", "CPU hit efficiency", "CPU miss efficiency", "num miss after delete"]
OPTIONAL = ["num miss after delete", "bandwidth usage", "CPU efficiency", "deleted data", "size redirected", "avg free space", "std dev free space", "hit rate"]
ALGOS = ["lru_100T_10Gbit_it", "lfu_50T_it", "sizeSmall_1T_it", "sizeBig_100T_us", "aiRL_SCDL_100T_it", "aiRL_SCDL2-onK_100T_it", "aiRL_SCDL2_5T",
         "weightFunLRU_FuncAdditive_1.00_2.00_3.00"]
PARTS = {"lru_100T_10Gbit_it": {"lru"}, "lfu_50T_it": {"lfu"}, "sizeSmall_1T_it": {"sizeSmall"}, "sizeBig_100T_us": {"sizeBig"},
         "aiRL_SCDL_100T_it": {"SCDL", "aiRL"}, "aiRL_SCDL2-onK_100T_it": {"SCDL2-onK", "aiRL"}, "aiRL_SCDL2_5T": {"SCDL2", "aiRL"},
         "weightFunLRU_FuncAdditive_1.00_2.00_3.00": {"weightFunLRU_FuncAdditive"}}


# how a part of a run's path shows in its name, where not as it is
NAMED = {"run_full_normal": "", "100T": "", "epsilon_test": "", "random_cache": "", "no_size_feature": "[NO size feature]", "slow": "[epsilon slow]",
         "fast": "[epsilon fast]"}


def mean(values):
    some = [v for v in values if v == v]
    return math.fsum(some) / len(some) if some else float("nan")


def ratio(a, b):
    return a / b if b else (float("nan") if a == 0 else math.copysign(float("inf"), a))


def measures(rows, have):
    def over(fun, *names):
        if not all(n in have for n in names):
            return 0.
        return mean([fun(*(r[n] for n in names)) for r in rows])
    size = rows[0]["cache size"]
    tb = 1024. ** 2
    return {
        "Throughput": over(lambda h, w, s: ratio(h - w, s), "read on hit data", "written data", "cache size"),
        "Cost": over(lambda w, d, s: ratio(w + d, s), "written data", "deleted data", "cache size"),
        "Throughput (TB)": over(lambda h, w: (h - w) / tb, "read on hit data", "written data"),
        "Cost (TB)": over(lambda w, d: (w + d) / tb, "written data", "deleted data"),
        "Read on hit ratio": over(lambda h, r: ratio(h, r) * 100., "read on hit data", "read data"),
        "Read on hit (TB)": over(lambda h: h / tb, "read on hit data"),
        "Bandwidth": over(lambda b: b, "bandwidth usage"),
        "Bandwidth (TB)": over(lambda m: m / tb, "read on miss data"),
        "Redirect Vol.": over(lambda x: ratio(x, size) * 100., "size redirected"),
        "Avg. Free Space": over(lambda x: ratio(x, size) * 100., "avg free space"),
        "Std. Dev. Free Space": over(lambda x: ratio(x, size) * 100., "std dev free space"),
        "Hit over Miss": over(ratio, "read on hit data", "read on miss data"),
        "Num. miss after del.": over(lambda x: x, "num miss after delete"),
        "Hit rate": over(lambda x: x, "hit rate"),
        "CPU Eff.": over(lambda x: x, "CPU efficiency"),
    }


BASIC = ["Throughput", "Cost", "Read on hit ratio", "Bandwidth", "Num. miss after del.", "CPU Eff."]
ORDER = [("Throughput", -1), ("Cost", 1), ("Read on hit ratio", -1), ("Num. miss after del.", -1)]
ORDER_ROH = [("Read on hit ratio", -1), ("Throughput", -1), ("Cost", 1), ("Num. miss after del.", -1)]


def result_rows(rng, days, have):
    size = float(rng.choice([1024, 51200, 1048576]))
    rows = []
    for d in range(days):
        hit, miss = rng.choice([0, round(rng.random() * size * 3, 2)]), rng.choice([0, round(rng.random() * size * 3, 2), round(rng.random() * size, 2)])
        if miss == 0 and rng.random() < .7:
            hit = 0
        row = {c: round(rng.random() * 100, 3) for c in RESULT}
        row.update({"date": "%s 00:00:00 +0000 UTC" % (datetime(2018, 1, 1) + timedelta(days=d)).strftime("%Y-%m-%d"), "cache size": size,
                    "read on hit data": hit, "read on miss data": miss, "read data": hit + miss, "written data": rng.choice([0, round(rng.random() * size, 2)]),
                    "deleted data": rng.choice([0, round(rng.random() * size, 2)]), "num miss after delete": rng.randrange(50),
                    "avg free space": round(rng.random() * size, 2), "std dev free space": round(rng.random() * size, 2)})
        rows.append({k: row[k] for k in have})
    return rows


def grow_runs(t, rng, want_logs=0.):
    """A tree of run folders; gives {relative result file: (components, rows, columns, log rows)}."""
    base = os.path.join(t.dir, rng.choice(["exp", "results_full", "x"]))
    os.mkdir(base)
    out = {}
    for _ in range(rng.choice([1, 2, 3, 5, 8, 12])):
        parts = [os.path.basename(base)]
        for _ in range(rng.choice([0, 0, 1, 2])):
            parts.append(rng.choice(["groupA", "groupB", "deep", "seedX", "run_full_normal", "100T", "no_size_feature", "epsilon_test", "slow", "fast", "random_cache"]))
        parts.append(rng.choice(ALGOS))
        folder = os.path.join(t.dir, *parts)
        if os.path.isdir(folder):
            continue
        os.makedirs(folder)
        out["/".join(parts + ["simulation_results.csv"])] = parts
    return base, out


@register("C56", quick=700, deep=10000, rule="A case aggregates a tree of run results, looks runs up and makes one table of measures; a situation is "
          "(runs, missing columns, order, rows asked for, kind of table).",
          need=["aggregated", "filtered in", "filtered out", "log loaded", "no log", "missing column", "extended", "throughput first", "read on hit first",
                "top rows", "all rows", "more rows than runs", "several trees", "undefined day", "metric values",
                "tie up to deleted data", "tie up to num miss after delete"])
def results(t):
    rng = t.rng
    lib = load("results.data")
    base, runs = grow_runs(t, rng)
    folders, extra = [base], None
    if rng.random() < .3:
        extra = os.path.join(t.dir, "second")
        os.makedirs(os.path.join(extra, "lru_100T_10Gbit_it"))
        runs["second/lru_100T_10Gbit_it/simulation_results.csv"] = ["second", "lru_100T_10Gbit_it"]
        folders.append(extra)
        t.count("several trees")
    extended = rng.random() < .5
    data, logs = {}, {}
    for key, parts in runs.items():
        have = [c for c in RESULT if c not in OPTIONAL or rng.random() < .93]
        if len(have) < len(RESULT):
            t.count("missing column")
        rows = result_rows(rng, rng.choice([1, 2, 5, 9]), have)
        if data and rng.random() < .35:
            # a run equal to another one but for one of the later measures
            rows, have = data[rng.choice(sorted(data))]
            rows, column = [dict(r) for r in rows], rng.choice(["deleted data", "read data", "read data", "num miss after delete"])
            for r in rows:
                if column in r:
                    r[column] = r[column] + rng.choice([1, 2, 3]) if column != "deleted data" else round(rng.random() * r["cache size"], 2)
            t.count("tie up to " + column)
        data[key] = (rows, have)
        write_csv(os.path.join(t.dir, key), rows)
        if any(r["read data"] == 0 for r in rows):
            t.count("undefined day")
        if rng.random() < .4:
            logs[key] = [{"tick": i, "action or event": "HIT", "cache size": 1.0, "cache capacity": 2.0, "filename": rng.randrange(9), "size": 1.5, "num req": 1,
                          "delta t": 3} for i in range(rng.randrange(1, 5))]
            write_csv(os.path.join(t.dir, os.path.dirname(key), "simulationLogFile.csv.gz"), logs[key])
    rng.shuffle(folders)
    found = lib.aggregate_results(folders)
    t.count("aggregated")
    t.equal(list(found.files), sorted(runs), "files aggregated")
    t.equal(len(found), len(runs), "number of results")
    components = {k: {c for p in parts for c in PARTS.get(p, {p})} for k, parts in runs.items()}
    t.equal(list(found.components), sorted(set().union(*components.values())), "components of the results")
    for key in found.files:
        for _ in range(4):
            every = rng.sample(list(found.components), rng.randrange(0, min(3, len(found.components)) + 1))
            some = rng.sample(list(found.components), rng.randrange(0, min(3, len(found.components)) + 1))
            match = set(every) <= components[key] and (not some or bool(set(some) & components[key]))
            frame = found.get_df(key, every, some)
            t.count("filtered in" if match else "filtered out")
            t.check((frame is not None) == match, "%s with components %s, asked for all of %s and any of %s: %s", key, sorted(components[key]), every, some,
                    "given" if frame is not None else "not given")
            if frame is not None:
                rows, have = data[key]
                t.equal(records(frame, [c for c in have if c != "date"]), [tuple(r[c] for c in have if c != "date") for r in rows], "data of " + key)
                t.equal(frame["date"].tolist(), [datetime.strptime(r["date"][:10], "%Y-%m-%d") for r in rows], "dates of " + key)
            log = found.get_log(key, every, some)
            if match and key in logs:
                t.equal(records(log, list(logs[key][0])), [tuple(r.values()) for r in logs[key]], "log of " + key)
                t.count("log loaded")
            else:
                t.check(log is None, "a log of %s is given (it %s one)", key, "has" if key in logs else "has not")
                t.count("no log")
    plots = [(key, found.get_df(key, [], [])) for key in found.files if rng.random() < .9] or [(found.files[0], found.get_df(found.files[0], [], []))]
    rng.shuffle(plots)
    want = {key: measures(*data[key]) for key, _ in plots}
    prefix = rng.choice(["", os.path.commonprefix([k for k, _ in plots])])
    first = rng.random() < .5
    top = rng.choice([0, 0, 1, 2, 5, 10, 11, 50])
    table, source = lib.make_table(plots, prefix, top_n=top, extended=extended, sort_by_roh_first=first)
    names = [n for n in want[plots[0][0]] if extended or n in BASIC]
    t.equal(list(table.columns), ["file"] + names, "columns of the table")
    expect = min(top, len(plots)) if top else len(plots)
    t.equal((len(table.index), len(source)), (expect, expect), "rows of the table of %d runs, %d asked for" % (len(plots), top))
    t.check(len(set(source)) == len(source) and set(source) <= set(want), "sources of the table %s", source)
    for i, key in enumerate(source):
        for name in names:
            got, value = table[name].tolist()[i], want[key][name]
            if math.isfinite(value):
                t.check(abs(got - value) <= .501e-6 + 1e-9 * abs(value) and (abs(value) > 1e5 or abs(got * 1e6 - round(got * 1e6)) < 1e-3), "%s of %s is %r, expected %r", name, key, got, round(value, 6))
            else:
                t.check(repr(float(got)) == repr(value), "%s of %s is %r, expected %r", name, key, got, value)
    order = ORDER_ROH if first else ORDER

    def before(a, b):
        """Whether run a may stand before run b."""
        for name, sign in order:
            x, y = want[a][name], want[b][name]
            if x != x or y != y:
                if x == x or y == y:
                    return y != y
                continue
            if abs(x - y) > 1e-9 * max(1, abs(x), abs(y)):
                return (x - y) * sign < 0
        return True
    for i, key in enumerate(source):
        for other in (source[i + 1:] if i + 1 < len(source) else []) + [k for k in want if k not in source]:
            t.check(before(key, other), "%s stands before %s: %s, %s", key, other, {n: want[key][n] for n, _ in order}, {n: want[other][n] for n, _ in order})
    t.count("read on hit first" if first else "throughput first")
    t.count("all rows" if not top else "top rows" if top < len(plots) else "more rows than runs")
    if extended:
        t.count("extended")
    if prefix == "":
        for i, key in enumerate(source):
            parts = [NAMED.get(p, p) for p in runs[key]]
            if "aiRL_SCDL2_5T" not in parts:
                t.equal(table["file"].tolist()[i], " ".join(p for p in parts if p), "name of " + key)
    values = lib.get_all_metric_values([(k, e) for k, e in found.get_all_df()])
    t.count("metric values")
    flat = {"Throughput": [], "Cost": [], "Read on hit ratio": []}
    for key, elm in found.get_all_df():
        rows, have = data[key]
        for r in rows:
            flat["Throughput"].append(ratio(r["read on hit data"] - r["written data"], r["cache size"]))
            flat["Cost"].append(ratio(r["written data"] + r["deleted data"], r["cache size"]) if "deleted data" in have else 0.)
            flat["Read on hit ratio"].append(ratio(r["read on hit data"], r["read data"]) * 100.)
    for name, expected in flat.items():
        got = values[name].tolist()
        t.equal(len(got), len(expected), "number of values of " + name)
        for a, b in zip(got, expected):
            t.check(a == b or (a != a and b != b) or abs(a - b) < 1e-9 * max(1, abs(b)), "a value of %s is %r, expected %r", name, a, b)
    t.sig(len(runs), [sorted(set(RESULT) - set(h)) for _, h in data.values()], first, top, extended)
    t.sample({"runs": len(runs), "top": top, "read on hit first": first, "extended": extended, "order": source[:3]})


# -- C57 ---------------------------------------------------------------------
TRIGGERS = ["ONFREE", "ONDAYEND", "ONK", "FORCEDCALL", "FREE"]
LOG = ["tick", "action or event", "cache size", "cache capacity", "filename", "size", "num req", "delta t"]


def make_log(rng, n, deep=False):
    """A log as a simulation writes it: every request first misses or hits, purges come with what they deleted and kept."""
    rows, tick, size = [], 0, {}

    def row(event, name=-1):
        rows.append({"tick": tick, "action or event": event, "cache size": round(rng.random() * 1000, 2), "cache capacity": round(rng.random() * 100, 2),
                     "filename": name, "size": size.setdefault(name, round(rng.random() * 500, 2)) if name != -1 else -1.0,
                     "num req": rng.choice([1, 1, 2, 3, 6, 7, 20]) if name != -1 else -1, "delta t": rng.randrange(100) if name != -1 else -1})

    def purge():
        row(rng.choice(TRIGGERS))
        names = rng.sample(range(20), rng.randrange(0, 6))
        for name in names:
            row(rng.choice(["DELETE", "DELETE", "DELETE", "KEEP"]), name)
    for _ in range(n):
        tick += 1
        name = rng.randrange(20)
        if rng.random() < .4:
            row("HIT", name)
        else:
            row("MISS", name)
            what = rng.random()
            if what < .2:
                row("SKIP", name)
            else:
                while rng.random() < .3:
                    purge()
                if what < .8:
                    row("ADD", name)
                elif what < .9:
                    row("REDIRECT", name)
        while rng.random() < .08:
            purge()
    return rows


def after_delete(rows):
    """For each purge: trigger row, deleted names, their sizes, misses of them before the next purge."""
    out = []
    for r in rows:
        event = r["action or event"]
        if event in TRIGGERS:
            out.append({"row": r, "deleted": [], "kept": [], "rest": [], "open": True})
        elif out:
            cur = out[-1]
            if cur["open"] and event in ("DELETE", "KEEP"):
                cur["deleted" if event == "DELETE" else "kept"].append(r)
            else:
                cur["open"] = False
                cur["rest"].append(r)
    return out


def miss_freq(rows):
    deleted, skipped = [], []
    watched, fresh = {}, True
    for r in rows:
        event = r["action or event"]
        if event == "DELETE":
            if fresh:
                watched, fresh = {}, False
            watched[r["filename"]] = r["num req"]
        elif event != "KEEP":
            fresh = True
            if event == "MISS" and r["filename"] in watched:
                deleted.append(watched.pop(r["filename"]))
            elif event == "SKIP":
                skipped.append(r["num req"])
    return deleted, skipped


def classes(values, total):
    edges = [0, 1, 2, 6]
    counts = [sum(a < v <= b for v in values) for a, b in zip(edges, edges[1:])] + [sum(v > 6 for v in values)]
    return [c / total * 100. if c else 0 for c in counts]


@register("C57", quick=700, deep=10000, rule="A case analyses the event logs of one or more runs by the report and by the command; a situation is "
          "(runs, purges, deleted, kept, misses after).",
          need=["purges", "no purge", "miss after delete", "skip", "kept file", "consecutive purges", "purge deleting nothing", "report dictionary", "report generator",
                "plot of misses", "plot of frequencies", "kept among deleted", "unknown report"])
def deletions(t):
    rng = t.rng
    data, utils = load("results.data"), load("results.utils")
    base, runs = grow_runs(t, rng)
    logs = {}
    for key in runs:
        rows = make_log(rng, rng.choice([1, 3, 10, 30, 120 if t.deep else 60]))
        logs[key] = rows
        have = list(RESULT)
        write_csv(os.path.join(t.dir, key), result_rows(rng, 2, have))
        write_csv(os.path.join(t.dir, os.path.dirname(key), "simulationLogFile.csv.gz"), rows)
    found = data.aggregate_results([base])
    prefix = os.path.commonprefix(list(found.files))
    named = {k.replace(prefix, "").replace("/simulation_results.csv", ""): k for k in runs}
    if len(named) < len(runs) or any(not prefix for _ in runs):
        named = {k: k for k in runs}

    def judge(key, got, expected):
        t.equal(len(got), len(expected), "purges of %s" % key)
        for i, (ev, want) in enumerate(zip(got, expected)):
            ctx = "purge %d of %s at tick %s" % (i, key, want["row"]["tick"])
            t.equal(ev.tick, want["row"]["tick"], "tick of " + ctx)
            t.equal(ev.event, want["row"]["action or event"], "event of " + ctx)
            t.near(ev.on_delete_cache_size, want["row"]["cache size"], "cache size at " + ctx)
            t.near(ev.on_delete_cache_occupancy, want["row"]["cache capacity"], "occupancy at " + ctx)
            names = {r["filename"] for r in want["deleted"]}
            t.equal(ev.num_deleted_files, len(names), "files deleted by " + ctx)
            t.near(float(ev.total_size_deleted_files), math.fsum(r["size"] for r in want["deleted"]), "size deleted by " + ctx, rel=1e-6)
            misses = sum(r["action or event"] == "MISS" and r["filename"] in names for r in want["rest"])
            t.equal(ev.total_num_req_after_delete, misses, "misses after " + ctx)
            t.count("purges")
            if misses:
                t.count("miss after delete")
            if want["kept"]:
                t.count("kept file")
                ordered = [r["action or event"] for r in sorted(want["kept"] + want["deleted"], key=lambda r: logs_pos[key][id(r)])]
                if re.search("DELETE.*KEEP.*DELETE", " ".join(ordered)):
                    t.count("kept among deleted")
            if not names:
                t.count("purge deleting nothing")
            if not want["rest"] and i + 1 < len(expected):
                t.count("consecutive purges")
    logs_pos = {key: {id(r): i for i, r in enumerate(rows)} for key, rows in logs.items()}
    want = {key: after_delete(rows) for key, rows in logs.items()}
    freq = {key: miss_freq(rows) for key, rows in logs.items()}
    if any(not w for w in want.values()):
        t.count("no purge")
    if any(s for _, s in freq.values()):
        t.count("skip")

    report = data.parse_simulation_report([(k, found.get_df(k, [], []), found.get_log(k, [], [])) for k in found.files], "")
    t.check(isinstance(report, dict), "the report is not a dictionary but %s", type(report).__name__)
    t.equal(sorted(report), sorted(k.replace("/simulation_results.csv", "") for k in runs), "names in the report")
    for key in runs:
        judge(key, list(report[key.replace("/simulation_results.csv", "")]), want[key])
    t.count("report dictionary")
    pieces = {}
    for name, ev in data.parse_simulation_report(found.get_all(), "", generator=True):
        pieces.setdefault(name, []).append(ev)
    t.equal(sorted(pieces), sorted(k.replace("/simulation_results.csv", "") for k in runs if want[k]), "names in the generated report")
    for key in runs:
        judge(key, pieces.get(key.replace("/simulation_results.csv", ""), []), want[key])
    t.count("report generator")
    key = rng.choice(sorted(runs))
    for target, expected in (("MISSFREQ", freq[key]),):
        (got,) = list(utils.parse_sim_log(found.get_log(key, [], []), target))
        t.equal((list(got[0]), list(got[1])), expected, "frequencies of the missed deleted and of the skipped files of " + key)
    t.raises(Exception, lambda: list(utils.parse_sim_log(found.get_log(key, [], []), "OTHER")), "unknown report")
    t.count("unknown report")
    out = os.path.join(t.dir, "plots")
    os.mkdir(out)
    os.chdir(out)
    label = rng.choice(["", "mine"])
    suffix = "-" + label if label else ""
    if any(want.values()):
        status, _ = run(t, "probe.results", "plot", base, *(["--output-filename", label] if label else []), *(rng.choice([[], ["--p-type", "AFTERDELETE"]])))
        t.equal(status, 0, "exit status of the plot of misses")
        for fname, cumulative in (("num_miss", False), ("num_miss_cumulative", True)):
            fig = json.loads(Path(out, fname + suffix + ".html").read_text())
            t.equal(len(fig["data"]), sum(1 for w in want.values() if w), "curves of " + fname)
            curves = sorted((tr["x"], tr["y"]) for tr in fig["data"])
            expected = []
            for key, purges in want.items():
                if not purges:
                    continue
                ys, total = [], 0
                for w in purges:
                    names = {r["filename"] for r in w["deleted"]}
                    m = sum(r["action or event"] == "MISS" and r["filename"] in names for r in w["rest"])
                    total += m
                    ys.append(total if cumulative else m)
                expected.append(([w["row"]["tick"] for w in purges], ys))
            t.equal(curves, sorted(expected), "curves of " + fname)
        t.count("plot of misses")
    status, _ = run(t, "probe.results", "plot", base, *(["--output-filename", label] if label else []), "--p-type", "MISSFREQ")
    t.equal(status, 0, "exit status of the plot of frequencies")
    fig = json.loads(Path(out, "miss_freq" + suffix + ".html").read_text())
    expected = []
    for key in runs:
        deleted, skipped = freq[key]
        total = len(deleted) + len(skipped)
        expected.append([classes(deleted, total), classes(skipped, total)])
    got = {}
    for tr in fig["data"]:
        got.setdefault(tr["row"], {})[tr["name"]] = tr["y"]
        t.equal(tr["x"], [1, 2, 6, "max"], "classes of the plot of frequencies")
    shown = sorted([[round(y, 6) for y in g[n]] for n in ("deleted", "skipped")] for g in got.values())
    t.equal(shown, sorted([[round(y, 6) for y in side] for side in e] for e in expected), "frequencies plotted")
    t.count("plot of frequencies")
    t.sig(len(runs), [len(w) for w in want.values()], [len(d) for d, _ in freq.values()], [len(s) for _, s in freq.values()])
    t.sample({"runs": len(runs), "purges": [len(w) for w in want.values()], "missed again": [len(d) for d, _ in freq.values()]})


# -- C58 ---------------------------------------------------------------------
MAP_TYPES = {"int": int, "str": str, "numstr": str, "float": float, "bool": bool}
TYPE_NAMES = {int: "int", float: "float", str: "string", bool: "bool"}


@register("C58", quick=4500, deep=24000, rule="A case converts one table into data and labels; a situation is (columns, kinds, unknown, open end, labels, shape).",
          need=["plain column", "categories", "unknown kept", "unknown value", "buckets", "open end", "beyond", "refused", "several bucketed columns", "label categories",
                "label numbers", "last column label", "for cnn", "saved map", "saved data", "sorted keys", "sorted as another type", "modified column", "not open", "other row labels", "true or false"])
def dataset(t):
    rng = t.rng
    from DataManager.collector.dataset.reader import SimulatorDatasetReader
    n = rng.choice([1, 2, 5, 12, 30])
    cols = {}
    kinds = {}
    for i in range(rng.randrange(1, 6)):
        kind = rng.choice(["int", "str", "numstr", "float", "bucket", "bucket", "plain", "bool"])
        name = "c%d" % i
        kinds[name] = kind
        if kind == "int":
            cols[name] = [rng.randrange(-3, 8) for _ in range(n)]
        elif kind == "str":
            cols[name] = [rng.choice(["data", "mc", "user", "a b", "7"]) for _ in range(n)]
        elif kind == "numstr":
            cols[name] = [rng.choice(["1", "2", "10", "21", "100", "3", "-4"]) for _ in range(n)]
        elif kind == "float":
            cols[name] = [rng.choice([0.5, 1.25, -2.0, 100.0, 0.01]) for _ in range(n)]
        elif kind == "bool":
            cols[name] = [rng.random() < .5 for _ in range(n)]
            t.count("true or false")
        elif kind == "plain":
            cols[name] = [round(rng.random() * 9, 2) for _ in range(n)]
        else:
            cols[name] = None
    edges = sorted(rng.sample([0.5, 1.0, 2.0, 5.0, 10.0, 50.0, 1000.0], rng.randrange(1, 6)))
    if rng.random() < .5:
        edges = [int(e) for e in edges if e >= 1] or [3]
    is_open = rng.random() < .6
    beyond = False
    for name, kind in kinds.items():
        if kind == "bucket":
            cols[name] = [rng.choice([rng.choice(edges), rng.choice(edges) - .25, rng.choice(edges) + .25, -1.0, edges[-1] + 100 if rng.random() < .3 else 0.1]) for _ in range(n)]
            beyond |= any(v > edges[-1] for v in cols[name])
    label_kind = rng.choice(["categories", "numbers", "numbers last"])
    cols["label"] = [rng.choice(["STORE", "NOTSTORE", "x"]) for _ in range(n)] if label_kind == "categories" else [rng.randrange(3) for _ in range(n)]
    name = os.path.join(t.dir, "set.pickle.gz")
    table = pd.DataFrame(cols)
    if rng.random() < .3:
        table.index = list(range(5, 5 + n))
        t.count("other row labels")
    table.to_pickle(name, compression="gzip")
    reader = SimulatorDatasetReader(name)
    bucketed = [c for c, k in kinds.items() if k == "bucket"]
    unknown, sort_keys, sort_types = {}, {}, {}
    modified = None
    if rng.random() < .3:
        modified = rng.choice([c for c in kinds])
        if kinds[modified] in ("plain",):
            t.check(reader.modify_column(modified, lambda s: s * 2) is reader, "modify_column does not give the reader back")
            cols[modified] = [v * 2 for v in cols[modified]]
            t.count("modified column")
    b_unknown = rng.random() < .3
    for c, kind in sorted(kinds.items(), key=lambda _: rng.random()):
        if kind in MAP_TYPES:
            unknown[c], sort_keys[c] = rng.random() < .4, rng.random() < .5
            options = {}
            if rng.random() < .6:
                options["sort_type"] = sort_types[c] = {"numstr": rng.choice([int, float, str]), "int": rng.choice([int, str]), "float": float, "str": str, "bool": rng.choice([bool, str])}[kind]
                if sort_keys[c] and sort_types[c] is not MAP_TYPES[kind]:
                    t.count("sorted as another type")
            reader.make_converter_map([c], unknown_values=unknown[c], sort_keys=sort_keys[c], map_type=MAP_TYPES[kind], **options)
            t.count("categories")
            if sort_keys[c]:
                t.count("sorted keys")
    if bucketed:
        together = rng.random() < .6
        for group in ([bucketed] if together else [[c] for c in bucketed]):
            reader.make_converter_map(group, unknown_values=b_unknown, map_type=type(edges[0]), buckets=edges + (["..."] if is_open else []))
        if len(bucketed) > 1 and together:
            t.count("several bucketed columns")
        t.count("buckets")
        t.count("open end" if is_open else "not open")
    if label_kind == "categories":
        reader.make_converter_map(["label"], map_type=str, sort_keys=rng.random() < .5)
    known = {c: set(cols[c]) for c in unknown}
    # values not in the map: they take the slot of the unknown ones
    for c in unknown:
        if unknown[c] and kinds[c] != "bool" and rng.random() < .6:
            values = list(cols[c])
            for _ in range(rng.randrange(1, 3)):
                values[rng.randrange(n)] = {"int": 99, "str": "never", "numstr": "55", "float": 77.5}[kinds[c]]
            cols[c] = values
            reader.modify_column(c, lambda s: pd.Series(values, index=s.index))
    refuse = beyond and not is_open
    chosen = [c for c in kinds if rng.random() < .9] or [next(iter(kinds))]
    refuse = not is_open and any(kinds[c] == "bucket" and any(v > edges[-1] for v in cols[c]) for c in chosen)
    cnn = rng.random() < .3
    args = dict(data_columns=chosen, for_cnn=cnn)
    if label_kind != "numbers last":
        args["label_column"] = "label"
    else:
        t.count("last column label")
    if refuse:
        t.raises(Exception, lambda: reader.make_data_and_labels(**args), "a value beyond the last bucket")
        t.count("refused")
        return
    reader.make_data_and_labels(**args)
    data, labels = reader.data
    rows = data.tolist()
    if cnn:
        t.count("for cnn")
        t.equal(tuple(data.shape)[2:], (1,), "last dimension")
        rows = [[x for (x,) in r] for r in rows]
    t.equal(len(rows), n, "rows of data")
    at, where = 0, {}
    for c in chosen:
        kind = kinds[c]
        if kind == "plain":
            t.equal([r[at] for r in rows], cols[c], "plain column " + c)
            t.count("plain column")
            at += 1
            continue
        width = len(edges) + is_open + b_unknown if kind == "bucket" else len(known[c]) + (1 if unknown[c] else 0)
        slots = {}
        for r, v in zip(rows, cols[c]):
            part = r[at:at + width]
            t.check(len(part) == width and sorted(part) == [0.] * (width - 1) + [1.], "column %s of value %r is %s, of %d slots", c, v, part, width)
            slot = part.index(1.)
            if kind == "bucket":
                key = next((i for i, e in enumerate(edges) if v <= e), len(edges))
                t.equal(slot, key + b_unknown, "slot of %r of the buckets %s" % (v, edges))
                if key == len(edges):
                    t.count("beyond")
            else:
                key = v if v in known[c] else "(unknown)"
                if key == "(unknown)":
                    t.count("unknown value")
                    t.equal(slot, 0, "slot of an unknown value of " + c)
                elif unknown[c]:
                    t.check(slot != 0, "value %r of %s takes the slot of the unknown ones", v, c)
                    t.count("unknown kept")
            if key in slots:
                t.equal(slot, slots[key], "slot of %r of %s" % (v, c))
            else:
                t.check(slot not in slots.values(), "slot of %r of %s is that of another value (%s)", v, c, slots)
                slots[key] = slot
        if kind != "bucket" and sort_keys[c]:
            for k, slot in slots.items():
                if k != "(unknown)":
                    t.equal(slot, sorted(known[c], key=sort_types.get(c, MAP_TYPES[kind])).index(k) + unknown[c], "slot of %r among the sorted values of %s" % (k, c))
        where[c] = slots
        at += width
    t.equal([len(r) for r in rows], [at] * n, "width of the rows")
    got = labels.tolist()
    if label_kind == "categories":
        t.count("label categories")
        slots = {}
        for v, one in zip(cols["label"], got):
            t.equal(sorted(one), [0] * (len(set(cols["label"])) - 1) + [1], "label of %r" % v)
            t.check(slots.setdefault(v, one) == one, "labels of %r differ", v)
        t.equal(len({tuple(x) for x in slots.values()}), len(slots), "different labels")
    else:
        t.count("label numbers")
        t.equal(got, cols["label"], "labels")
    if rng.random() < .5:
        reader.store_converter_map("feat")
        stored = json.loads(gzip.open(os.path.join(t.dir, "feat.json.gz"), "rt").read())
        wanted = set(unknown) | set(bucketed) | ({"label"} if label_kind == "categories" else set())
        t.equal(sorted(stored), sorted(wanted), "columns of the stored map")
        for c in stored:
            obj = stored[c]
            t.equal(obj["feature"], c, "feature of the stored map")
            t.equal(obj["type"], TYPE_NAMES[str if c == "label" else type(edges[0]) if kinds[c] == "bucket" else MAP_TYPES[kinds[c]]], "type of %s in the stored map" % c)
            t.equal(obj["unknown_values"], False if c == "label" else b_unknown if kinds[c] == "bucket" else unknown[c], "unknown values of %s in the stored map" % c)
            if kinds.get(c) == "bucket":
                t.equal((obj["keys"], obj["buckets"], obj["bucket_open_right"]), (edges, True, is_open), "buckets of %s in the stored map" % c)
            else:
                expected = set(cols["label"]) if c == "label" else known[c]
                t.equal(sorted(obj["keys"]), sorted(expected), "values of %s in the stored map" % c)
                t.equal((obj["buckets"], obj["bucket_open_right"]), (False, False), "no buckets for %s in the stored map" % c)
            first = 1 if obj["unknown_values"] else 0
            slots = sorted(v for k, v in obj["values"].items())
            t.equal(slots, list(range(first, first + len(obj["keys"]) + (1 if obj["bucket_open_right"] else 0))), "slots of %s in the stored map" % c)
            for k, slot in where.get(c, {}).items():
                if k != "(unknown)":
                    key = (edges + ["max"])[k] if kinds[c] == "bucket" else k
                    t.equal(obj["values"].get("%.2f" % key if isinstance(key, float) else str(key)), slot, "slot of %r of %s in the stored map" % (key, c))
        t.count("saved map")
    if rng.random() < .5:
        reader.save_data_and_labels("mine")
        again = SimulatorDatasetReader().load_data_and_labels(os.path.join(t.dir, "mine.npz"))
        t.equal((again.data[0].tolist(), again.data[1].tolist()), (data.tolist(), labels.tolist()), "data saved and loaded")
        t.count("saved data")
    t.sig([kinds[c] for c in chosen], is_open, b_unknown, sorted(unknown.items()), label_kind, cnn, n, len(edges))
    t.sample({"columns": [kinds[c] for c in chosen], "edges": edges, "open": is_open, "labels": label_kind, "rows": n})


def selection(t, rng, tables):
    """Asks for a region, a file type or a month; gives the options and the rows of each table they leave."""
    region = rng.choice(["all", "it", "us", "IT"]) if rng.random() < .3 else None
    kind = rng.choice(["all", "data", "mc", "user"]) if rng.random() < .3 else None
    month = rng.choice([-1, datetime.strptime(re.search(r"\d{4}-\d\d-\d\d", rng.choice(sorted(tables))).group(), "%Y-%m-%d").month]) if rng.random() < .3 else None
    left, options = {}, []
    for name in sorted(tables):
        if month in (None, -1) or re.search(r"\d{4}-(\d\d)-\d\d", name).group(1) == "%02d" % month:
            left[name] = [r for r in tables[name] if (region in (None, "all") or "_%s_" % region.lower() in r["SiteName"].lower())
                          and (kind in (None, "all") or "/%s/" % kind in r["Filename"].lower())]
    for option, value in (("--region", region), ("--file-type", kind), ("--month", month)):
        if value is not None:
            options += [option, value]
    if sum(map(len, left.values())) < sum(map(len, tables.values())):
        for name, value in (("region", region), ("file type", kind), ("month", month)):
            if value not in (None, "all", -1):
                t.count("only one " + name)
    return left, options


# -- C59 ---------------------------------------------------------------------
def quantile(values, q):
    values = sorted(values)
    at = q * (len(values) - 1)
    low = int(math.floor(at))
    return values[low] + (values[min(low + 1, len(values) - 1)] - values[low]) * (at - low)


@register("C59", quick=1000, deep=8000, rule="A case analyses one set of request tables by the command line; a situation is (analysis, days, grouping, kind of table, features, edges).",
          need=["feature bins", "upper limits", "by day", "by week", "by month", "numeric table", "known edges", "own edges", "open end", "sizes", "requests", "delta",
                "failed job", "other type", "no value", "numReq twice a week", "only one region", "only one file type", "only one month", "no edges in the map"])
def analysis(t):
    rng = t.rng
    folder = os.path.join(t.dir, "in")
    os.mkdir(folder)
    os.chdir(t.dir)
    limits = rng.random() < .35
    numeric = not limits and rng.random() < .3
    files, tables = {}, {}
    day = datetime(2018, rng.randrange(1, 12), rng.randrange(1, 28))
    for _ in range(rng.choice([1, 2, 4, 8, 12])):
        rows = requests(rng, rng.choice([1, 3, 8, 20, 50]), stamp(day), files, numeric, pool=rng.choice([3, 12, 30]), odd=False)
        if limits and not any(r["JobSuccess"] and r["DataType"] in ("data", "mc") and r["Size"] for r in rows):
            rows.append(dict(rows[0], JobSuccess=True, DataType="data", Size=7 * 1024 ** 3, Filename="/store/data/a/b/%d.root" % len(tables)))
        for r in rows:
            if not r["JobSuccess"]:
                t.count("failed job")
        name = "results_" + ("numeric_it_" if numeric else "") + day.strftime("%Y-%m-%d") + rng.choice([".csv.gz", ".csv"])
        tables[name] = rows
        write_csv(os.path.join(folder, name), rows)
        day += timedelta(days=rng.choice([1, 1, 1, 3, 9, 25]))
        if day.year > 2018:
            break
    chosen = []
    if not numeric and rng.random() < .5:
        left, chosen = selection(t, rng, tables)
        if limits and not all(any(r["JobSuccess"] and r["DataType"] in ("data", "mc") and r["Size"] for r in rows) for rows in left.values()) or not left:
            left, chosen = tables, []
        tables = left
    order = sorted(tables)
    label = rng.choice(["out", "fig"])
    if limits:
        status, _ = run(t, "probe.analyzer", folder, "upper_limits", *chosen, "--concat", "false", "--generate", "true", "--output-type", "html", "--output-filename", label)
        t.equal(status, 0, "exit status of upper_limits")
        fig = json.loads(Path(t.dir, label + ".html").read_text())
        rate, read, size = [], [], []
        for name in order:
            good = [r for r in tables[name] if r["JobSuccess"] and r["DataType"] in ("data", "mc")]
            if len(good) < len(tables[name]):
                t.count("other type")
            names = {r["Filename"]: r["Size"] for r in good}
            total = sum(r["Size"] for r in good)
            rate.append((len(good) - len(names)) / len(good) * 100.)
            read.append((total - sum(names.values())) / total * 100.)
            size.append(sum(names.values()) / 1024 ** 4)
        want = [rate, read, size] + [[mean(v)] * len(v) for v in (rate, read, size)]
        t.equal(len(fig["data"]), 6, "curves of the upper limits")
        for got, values in zip(fig["data"], want):
            t.equal([x[:10] for x in got["x"]], [re.search(r"\d{4}-\d\d-\d\d", n).group() for n in order], "days of " + got["name"])
            t.check(len(got["y"]) == len(values) and all(abs(a - b) <= 1e-9 * max(1, abs(b)) for a, b in zip(got["y"], values)),
                    "%s is %s, expected %s", got["name"], got["y"], values)
        t.count("upper limits")
        t.sig("limits", len(order), [len(r) for r in tables.values()])
        t.sample({"analysis": "upper limits", "days": len(order)})
        return
    region = rng.choice(["it", "us", "all"]) if numeric else "all"
    if numeric or "--region" not in chosen and rng.random() < .5:
        chosen += ["--region", region]
    group = rng.choice(["d", "w", "m"])
    kinds = {"it": (0, 1), "us": (0, 3)}.get(region) if numeric else ("data", "mc")
    kept = [r for name in order for r in tables[name] if r["JobSuccess"] and (kinds is None or r["DataType"] in kinds)]
    if not kept:
        return
    t.count({"d": "by day", "w": "by week", "m": "by month"}[group])
    if numeric:
        t.count("numeric table")
    groups = {}
    for r in kept:
        when = datetime(1970, 1, 1) + timedelta(seconds=r["reqDay"])
        groups.setdefault({"d": r["reqDay"], "w": when.isocalendar()[1], "m": when.month}[group], []).append(r)
    values = {"size": [int(r["Size"] / 1024 ** 2) for r in kept], "numReq": [], "deltaLastRequest": []}
    for rows in groups.values():
        counts, last = {}, {}
        for i, r in enumerate(rows):
            counts[r["Filename"]] = counts.get(r["Filename"], 0) + 1
            if r["Filename"] in last:
                values["deltaLastRequest"].append(i - last[r["Filename"]])
            last[r["Filename"]] = i
        values["numReq"] += counts.values()
    if group == "w" and any(len({r["reqDay"] for r in rows}) > 1 for rows in groups.values()):
        t.count("numReq twice a week")
    features = rng.sample(["size", "numReq", "deltaLastRequest"], rng.randrange(1, 4))
    known = {}
    for f in features:
        if rng.random() < .6:
            edges = sorted(rng.sample([1, 2, 3, 5, 10, 50, 700, 1024, 5000], rng.randrange(1, 5)))
            known[f] = {"type": "float", "buckets": True, "keys": [float(e) for e in edges] if rng.random() < .5 else edges, "bucket_open_right": rng.random() < .7}
    features = [f for f in features if f in known or values[f]]
    if not features:
        return
    whole = rng.random() < .3 and known
    options = ["--group-by", group, "--output-folder", label] + chosen
    if known or rng.random() < .5:
        extra = dict(known)
        if rng.random() < .3:
            extra["fileType"] = {"type": "string", "keys": ["a"], "buckets": False}
        for f in {"size", "numReq", "deltaLastRequest"} - set(known):
            if rng.random() < .3:
                # not a bucketed float feature: it gives no edges
                extra[f] = rng.choice([{"type": "float", "buckets": False, "keys": [1.0, 2.0]}, {"type": "int", "buckets": True, "keys": [1, 2]}, {"type": "float", "keys": [3.0]}, {"keys": [1, 9], "buckets": True}])
                t.count("no edges in the map")
        Path(t.dir, "features.json").write_text(json.dumps(extra))
        options += ["--feature-filename", os.path.join(t.dir, "features.json")]
    if whole:
        features = [f for f in known]
    else:
        options += ["--feature-list", ",".join(features)]
    status, _ = run(t, "probe.analyzer", folder, "feature_bins", *options)
    t.equal(status, 0, "exit status of feature_bins")
    t.count("feature bins")
    t.equal(sorted(os.listdir(label)), sorted("feature_%s_%s.html" % (f, k) for f in features for k in ("bins", "violin")), "files written")
    for f in features:
        data = values[f]
        t.count({"size": "sizes", "numReq": "requests", "deltaLastRequest": "delta"}[f])
        if f in known:
            edges = list(known[f]["keys"])
            if known[f]["bucket_open_right"]:
                edges.append(edges[-1] * 2)
                t.count("open end")
            t.count("known edges")
        else:
            edges = [quantile(data, q / 100.) for q in range(16, 100, 16)]
            edges.append(edges[-1] * 2)
            if f == "numReq":
                edges = sorted({int(e) for e in edges})
            t.count("own edges")
        counts, prev = [], 0.
        for i, e in enumerate(edges):
            counts.append(sum(v > prev and (v <= e or i == len(edges) - 1) for v in data))
            prev = e
        total = sum(counts)
        if not total:
            t.count("no value")
        want = [c / total * 100. if total else 0. for c in counts]
        fig = json.loads(Path(t.dir, label, "feature_%s_bins.html" % f).read_text())
        (bar,) = fig["data"]
        ctx = "%s by %s, edges %s" % (f, group, edges)
        t.equal(bar["x"][-1], "max", "last bin of " + ctx)
        t.check(len(bar["x"]) == len(edges) and all(abs(float(a) - b) < 1e-9 * max(1, abs(b)) for a, b in zip(bar["x"][:-1], edges)), "bins of %s: %s", ctx, bar["x"])
        t.check(len(bar["y"]) == len(want) and all(abs(a - b) < 1e-9 * 100 for a, b in zip(bar["y"], want)), "percentages of %s: %s, expected %s", ctx, bar["y"], want)
        violin = json.loads(Path(t.dir, label, "feature_%s_violin.html" % f).read_text())["data"]
        t.equal(sorted(violin[0]["y"]), sorted(data), "all the values of " + ctx)
        t.equal([len(v["y"]) for v in violin[1:]], counts, "values by bin of " + ctx)
    t.sig(group, numeric, region, len(order), features, sorted(known), len(groups))
    t.sample({"analysis": "bins", "days": len(order), "group": group, "features": features, "groups": len(groups)})
