"""The small tools around the results (C70): differences between runs, daily upper bounds, the original order of requests, hashes."""
import contextlib
import csv
import gzip
import hashlib
import importlib.util
import io
import os
import re
import sys
import runpy

import pcheck
from pcheck import register

MEASURES = ["Throughput", "Cost", "Read on hit ratio", "Bandwidth"]
SHORT = {"throughput": 0, "cost": 1, "readOnHitRatio": 2, "bandwidth": 3}


def run(path, *args):
    """The output of a program started from the case's folder."""
    argv, out = sys.argv, io.StringIO()
    sys.argv = [os.path.join(pcheck.REPO, path)] + list(args)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            runpy.run_path(sys.argv[0], run_name="__main__")
    finally:
        sys.argv = argv
    return out.getvalue()


def change(a, b):
    """From a to b, in percent of their mean size: more is positive."""
    if a == b:
        return 0.
    return abs(a - b) / abs((a + b) / 2.) * 100. * (1. if b > a else -1.)


def numbers(t, got, want, what):
    t.check(got == want or got != got and want != want or abs(got - want) <= 1e-9 * max(1., abs(want)), "%s: %r instead of %r", what, got, want)


def differences(t, which):
    rng = t.rng
    table, runs, seen = [], {}, set()
    methods = rng.sample(["SCDL", "SCDL2", "SCDL-onK", "NoAdd", "sizeSmall", "SCDL2-onK-x"], rng.choice([1, 2, 4]))
    for size in rng.sample(["10T", "100T", "200T"], rng.choice([1, 2])):
        for method in methods:
            kinds = ["normal"]
            if which == "epsilon":
                kinds += rng.choice([["slow", "fast"], ["slow", "fast"], ["slow"], []])
            else:
                kinds += rng.choice([["size"], ["size"], []])
            for kind in kinds:
                name = ("aiRL_" if rng.random() < .7 else "") + "%s_%s_10Gbit_it" % (method, size)
                if kind != "normal":
                    name = ("[epsilon %s] " % kind if which == "epsilon" else "[NO_size feature] ") + name
                sign = -1. if rng.random() < .4 else 1.
                vals = [round(sign * rng.uniform(.5, 30), 6) if i == 0 else round(rng.uniform(.5, 100), 6) for i in range(4)]
                if kind != "normal" and rng.random() < .3:
                    vals[rng.randrange(4)] = runs[size, method, "normal"][rng.randrange(4)]
                runs[size, method, kind] = vals
                table.append([name] + vals + [round(rng.uniform(0, 2000), 3), round(rng.uniform(0, 100), 3)])
    if rng.random() < .5:
        table.append(["lru_10T_10Gbit_it"] + [round(rng.uniform(1, 9), 3) for _ in range(6)])
    rng.shuffle(table)
    name = rng.choice(["table.csv", "other.csv"])
    with open(name, "w", newline="") as f:
        w = csv.writer(f)
        w.writerow(["", "file"] + MEASURES + ["Num. miss after del.", "CPU Eff."])
        for i, row in enumerate(table):
            w.writerow([i] + row)
    out = run("scripts/resultAnalysis/%s_diff_calc.py" % ("epsilon" if which == "epsilon" else "noSize"), *([name] if name != "table.csv" or rng.random() < .5 else []))
    wanted = {}
    for (size, method, kind) in runs:
        if kind == "normal" or which == "epsilon" and not all((size, method, k) in runs for k in ("slow", "fast")):
            continue
        for measure, i in SHORT.items():
            wanted[size, method, measure, kind] = change(runs[size, method, "normal"][i], runs[size, method, kind][i])
    got = {}
    for size, method, measure, rest in re.findall(r"\|(\S+) (\S+) (\S+) diff\n\|->\s+(.*)", out):
        for kind, value in re.findall(r"(no size|fast|slow): (\S+)", rest):
            key = size, method, measure, {"no size": "size"}.get(kind, kind)
            t.check(key not in got, "%s is reported twice", key)
            got[key] = float(value)
    t.equal(sorted(got), sorted(wanted), "differences reported")
    for key in wanted:
        numbers(t, got[key], wanted[key], "difference of %s" % " ".join(key))
    means = {(k, m): float(v) for k, m, v in re.findall(r"^(fast|slow|no size) (\S+) mean diff % (\S+)$", out, re.M)}
    kinds = {"fast": "fast", "slow": "slow"} if which == "epsilon" else {"no size": "size"}
    t.equal(sorted(means), sorted((k, m) for k in kinds for m in SHORT), "means reported")
    for (kind, measure), value in means.items():
        mine = [v for k, v in wanted.items() if k[2] == measure and k[3] == kinds[kind]]
        numbers(t, value, sum(mine) / len(mine) if mine else float("nan"), "mean difference of %s %s" % (kind, measure))
    t.count("differences", len(wanted))
    t.count("means", len(means))
    t.sig(which, len(methods), len(wanted), len(table))


def bounds(t):
    rng = t.rng
    wanted = {}
    for folder in rng.sample(["it", "us", "de.d"], rng.choice([1, 2])):
        os.mkdir(folder)
        for day in range(rng.choice([1, 2, 5])):
            files = {"/f%d" % i: float(rng.randint(1, 4000)) for i in range(rng.choice([1, 4, 20]))}
            rows = []
            for _ in range(rng.choice([1, 5, 60])):
                name = rng.choice(sorted(files))
                rows.append((name, files[name], rng.random() < .8))
            if not any(r[2] for r in rows):
                rows.append((sorted(files)[0], files[sorted(files)[0]], True))
            path = os.path.join(folder, "results_2018-05-%02d.csv.gz" % (day + 1))
            with gzip.open(path, "wt", newline="") as f:
                w = csv.writer(f)
                w.writerow(["Filename", "Size", "JobSuccess", "UserID"])
                w.writerows([r[0], r[1], r[2], rng.randint(0, 9)] for r in rows)
            good = [r for r in rows if r[2]]
            once, total = {r[0]: r[1] for r in good}, sum(r[1] for r in good)
            wanted[path] = ((len(good) - len(once)) / len(good) * 100., (total - sum(once.values())) / total * 100.)
        open(os.path.join(folder, "notes.csv"), "w").close()
    with gzip.open("results_top.csv.gz", "wt") as f:
        f.write("not a day of a data set\n")
    out = run("datasets/add_hit_upper_bound.py")
    got = {}
    for line in out.splitlines():
        m = re.match(r"(\S+\.csv\.gz) (\S+) (\S+)$", line)
        if m:
            key = os.path.relpath(m.group(1), os.path.realpath("."))
            t.check(key not in got, "%s is reported twice", key)
            got[key] = float(m.group(2)), float(m.group(3))
    t.equal(sorted(got), sorted(wanted), "days reported")
    for key, (hits, read) in wanted.items():
        numbers(t, got[key][0], hits, "highest hit rate of " + key)
        numbers(t, got[key][1], read, "highest share of read on hit data of " + key)
    t.count("days with bounds", len(wanted))
    t.sig("bounds", len(wanted))


def tool(path):
    spec = importlib.util.spec_from_file_location("small_" + os.path.basename(path)[:-3], os.path.join(pcheck.REPO, path))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def order(t):
    import pandas as pd
    rng, mod = t.rng, tool("scripts/merge_dataframe_in_order.py")
    cols = ["Filename", "Job", "DataType", "UserID"]

    def rows(n):
        return [[rng.choice(["A", "B", "/store/C"]), rng.choice(["analysis", "test"]), rng.choice(["data", "mc"]), rng.choice(["user1", "user2"])] for _ in range(n)]
    original = rows(rng.choice([1, 5, 40]))
    # what was selected of them, in another order, and rows that were not there
    some = [r for r in original if rng.random() < .6] + rows(rng.choice([0, 0, 3]))
    rng.shuffle(some)
    some = some or rows(1)

    def keys(table):
        seen, out = {}, []
        for r in table:
            n = seen[r[0]] = seen.get(r[0], -1) + 1
            out.append((tuple(r), n))
        return out
    first = mod.add_index(mod.add_checksum(pd.DataFrame([list(r) for r in original], columns=cols)))
    t.equal([int(i) for i in first["idx"].tolist()], list(range(len(original))), "positions of the original rows")
    for table, frame in ((original, first), (some, mod.add_checksum(pd.DataFrame([list(r) for r in some], columns=cols)))):
        t.equal([list(x) for x in zip(*(frame[c].tolist() for c in cols))], table, "rows with checksums")
        want = [hashlib.blake2s(("%s%s%s%s%d" % (k + (n,))).encode(), digest_size=8).hexdigest() for k, n in keys(table)]
        t.equal(frame["checksum"].tolist(), want, "checksums")
    second = mod.add_index(mod.add_checksum(pd.DataFrame([list(r) for r in some], columns=cols)))
    got = mod.match_order(first[["Filename", "checksum", "idx"]], second)
    place = {k: i for i, k in enumerate(keys(original))}
    want = sorted((place[k], i) for i, k in enumerate(keys(some)) if k in place)
    t.equal(list(zip((int(i) for i in got["idx_original"].tolist()), (int(i) for i in got["idx_cur"].tolist()))), want, "rows found, in the original order")
    t.count("rows put in order", len(want))
    t.sig("order", len(original), len(some), len(want))


def hashes(t):
    rng = t.rng
    for _ in range(3):
        text = "".join(rng.choice("abcXYZ/_-. 0123456789") for _ in range(rng.choice([0, 1, 8, 80])))
        want = hashlib.blake2b(text.encode(), digest_size=8).hexdigest()
        t.equal(run("SmartCache/utils/hash_tool.py", "hex", text).strip(), want, "hash of %r" % text)
        t.equal(run("SmartCache/utils/hash_tool.py", "int", text).strip(), str(int(want, 16) % 10 ** 10), "number of %r" % text)
        t.count("hashes", 2)
    t.sig("hashes", text)


@register("C70", quick=1600, deep=8000, need=("differences", "days with bounds", "rows put in order", "hashes"),
          rule="differences between runs (epsilon, left out size), daily bounds, original order and hashes in turn, computed again from generated tables")
def c70(t):
    os.chdir(t.dir)
    kind = t.case % 5
    if kind < 2:
        differences(t, ["epsilon", "size"][kind])
    elif kind == 2:
        bounds(t)
    elif kind == 3:
        order(t)
    else:
        hashes(t)
