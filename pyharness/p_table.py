"""Support tables and the training sets made with them (C46)."""
import json
import os
import pickle
from copy import deepcopy

from pcheck import register

WORDS = ["Run2018A", "QCD", "Double-EG", "DoubleMuon_x", "a", "A", "AOD", "AODSIM", "MINIAOD-v2", "data", "mc", "_", "é", "Z", "zz", "run2018b"]


def word(rng):
    return "".join(rng.choice(WORDS) + rng.choice(["", "", "-", "_", " "]) for _ in range(rng.choice([1, 1, 1, 2, 3]))).strip() or "w"


def words_of(text):
    return text.replace("-", " ").replace("_", " ").split()


def judge_indexes(t, table, model):
    t.same({n: {k: set(v) for k, v in feats.items()} for n, feats in table.to_dict().items()}, model, "categories of the tables")
    for name, feats in model.items():
        for key, values in feats.items():
            got = table.to_dict()[name][key]
            t.equal(sorted(got.values()), list(range(len(values))), f"indexes of {key!r}")
            order = sorted(values, key=lambda v: got[v])
            t.check(all(a.lower() <= b.lower() for a, b in zip(order, order[1:])), "indexes of %r not in the order of the names: %r", key, order)


def close(indexes, value):
    for cat in sorted(indexes, key=indexes.get):
        if value[:len(cat)] == cat:
            return indexes[cat]
    return indexes.get("__unknown__")


def converted(table, name, data, normalized):
    out = []
    for key in sorted(table[name]):
        at, size = close(table[name][key], data[key]), len(table[name][key])
        out += [at / size] if normalized else [1. if i == at else 0. for i in range(size)]
    return out


def judge_values(t, table, rng):
    """Every question about the current indexes."""
    model = table.to_dict()
    t.equal(sorted(table.list), sorted(model), "names of the tables")
    for name in model:
        t.equal(table.get_sorted_keys(name), sorted(model[name]), "features of a table")
        t.same(getattr(table, name), model[name], "a table by attribute")
        t.check(name in table, "table %r not found in the tables", name)
        for key, indexes in model[name].items():
            t.equal(table.get_len(name, key), len(indexes), "size of a feature")
            for cat, at in indexes.items():
                t.equal(table.get_value(name, key, cat), at, f"index of {cat!r}")
            for _ in range(6):
                value = rng.choice([word(rng), rng.choice(sorted(indexes)) + rng.choice(["", "x", "-1"]), rng.choice(sorted(indexes))[:-1]])
                want = close(indexes, value)
                if want is None:
                    t.raises(KeyError, lambda: table.get_close_value(name, key, value), f"the value {value!r}")
                    t.count("no category")
                else:
                    t.equal(table.get_close_value(name, key, value), want, f"index close to {value!r}")
                    t.count("unknown" if want == indexes.get("__unknown__") else "close")
                if value not in indexes:
                    t.raises(KeyError, lambda: table.get_value(name, key, value), f"the value {value!r}")
        data = {k: rng.choice(sorted(c for c in ix)) + rng.choice(["", "+1"]) for k, ix in model[name].items()}
        data["more"] = "not in the table"
        for normalized in (True, False):
            if all(close(model[name][k], data[k]) is not None for k in model[name]):
                t.same(table.close_conversion(name, data, normalized=normalized, one_hot=not normalized),
                       converted(model, name, data, normalized), "conversion to " + ("fractions" if normalized else "one hot"))
                t.count("normalized" if normalized else "one hot")
        t.raises(AssertionError, lambda: table.close_conversion(name, data, normalized=True, one_hot=True), "both conversions at once")
    t.raises(AttributeError, lambda: table.no_such_table, "an unknown table")


@register("C46", quick=6000, deep=30000, timeout=60,
          rule="A case is a support table filled, indexed, asked, filled again and copied; a situation is (tables, features, "
               "categories, rounds, with unknown, reduced).",
          need=["not indexed yet", "close", "unknown", "no category", "normalized", "one hot", "indexed again", "reduced", "pickled", "from a dictionary"])
def tables(t):
    from DataManager.collector.dataset.utils import ReadableDictAsAttribute, SupportTable
    rng = t.rng
    table, model = SupportTable(), {}
    rounds = rng.choice([1, 2, 2, 3])
    reduced = 0
    for turn in range(rounds):
        for _ in range(rng.randrange(1, 20)):
            name, key = rng.choice(["features", "classes"]), rng.choice(["process", "campaign", "x"])
            value, unknown = word(rng), rng.random() < .5
            t.check(table.insert(name, key, value, **({} if unknown and rng.random() < .5 else {"with_unknown": unknown})) is table, "insert gives the table")
            model.setdefault(name, {}).setdefault(key, set()).add(value)
            if unknown:
                model[name][key].add("__unknown__")
        if rng.random() < .4:
            name = rng.choice(sorted(model))
            key = rng.choice(sorted(model[name]))
            lvls = rng.choice([0, 0, 1, 2])
            before = [words_of(c) for c in model[name][key] if c != "__unknown__"]
            table.reduce_categories(name, key, filter_=table.filters.simple_split, lvls=lvls)
            table.gen_indexes()
            got = set(table.to_dict()[name][key])
            t.check("__unknown__" in got, "no unknown category after a reduction")
            cats = [c.split(" ") for c in got - {"__unknown__"}]
            t.equal(sorted(c[0] for c in cats), sorted({w[0] for w in before if w}), f"first words of the categories reduced to {lvls} levels")
            for c in cats:
                t.check(len(c) <= lvls + 1, "category %r of %d levels", c, lvls)
                t.check(any(w[:len(c)] == c and (len(c) == lvls + 1 or len(w) == len(c)) for w in before),
                        "category %r with %d levels made of %r", c, lvls, before)
            model[name][key] = got
            reduced += 1
            t.count("reduced")
        t.check(table.gen_indexes() is table, "gen_indexes gives the table")
        judge_indexes(t, table, model)
        if rng.random() < .4:
            # what is not indexed yet does not exist
            name = rng.choice(sorted(model))
            key, value = rng.choice(sorted(model[name])), word(rng) + "_later"
            table.insert(name, key, value, with_unknown=False)
            model[name][key] = model[name][key] | {value}
            t.count("not indexed yet")
        judge_values(t, table, rng)
        if turn:
            t.count("indexed again")
    table.gen_indexes()
    judge_indexes(t, table, model)
    keep = deepcopy(table.to_dict())
    copy = pickle.loads(pickle.dumps(table))
    t.same(copy.to_dict(), keep, "a pickled table")
    judge_values(t, copy, rng)
    t.count("pickled")
    t.same(json.loads(repr(table)), keep, "the table as text")
    other = SupportTable(json.loads(json.dumps(keep)))
    t.same(other.to_dict(), keep, "a table from a dictionary")
    judge_values(t, other, rng)
    other.insert("features", "process", "another one")
    other.gen_indexes()
    model.setdefault("features", {}).setdefault("process", set()).update(["another one", "__unknown__"])
    judge_indexes(t, other, model)
    judge_values(t, other, rng)
    t.same(table.to_dict(), keep, "the first table after changing its copy")
    t.count("from a dictionary")
    # the readable dictionary that carries tables
    meta = ReadableDictAsAttribute({"b": 1, "a": [2], "support_tables": json.loads(json.dumps(keep))})
    t.equal(sorted(meta.list), ["a", "b", "support_tables"], "names of a readable dictionary")
    t.equal([list(meta), list(meta)], [["a", "b", "support_tables"]] * 2, "a readable dictionary read twice")
    t.same((meta.b, meta.a), (1, [2]), "attributes")
    t.same(meta.to_dict(), {"b": 1, "a": [2], "support_tables": keep}, "a readable dictionary")
    t.same(json.loads(repr(meta)), meta.to_dict(), "a readable dictionary as text")
    t.sig(len(model), sum(map(len, model.values())), max(len(v) for f in model.values() for v in f.values()), rounds, reduced)
    t.sample({"tables": sorted(model), "rounds": rounds, "first": {k: len(v) for k, v in next(iter(model.values())).items()}})


@register("C47", quick=2400, deep=12000, timeout=60,
          rule="A case is a data set read back, encoded and cut into folds; a situation is (records, folds, leftover, encoding, labels, classes).",
          need=["no folds", "folds", "leftover records", "normalized", "one hot", "one hot labels", "two classes", "reduced"])
def train_sets(t):
    from DataManager.collector.datafile.json import JSONDataFileWriter
    from DataManager.collector.dataset.reader import CMSDatasetTest0Reader
    rng = t.rng
    n = rng.choice([1, 2, 5, 12, 30])
    classes = rng.choice([["good", "bad"], ["good", "bad"], ["good"], ["UNKNOWN", "bad", "good"]])
    pools = {k: [word(rng) for _ in range(rng.choice([1, 3, 8]))] for k in ["store_type", "campaign", "process", "file_type"]}
    recs = [{"features": {k: rng.choice(pools[k]) for k in sorted(pools, key=lambda _: rng.random())}, "class": rng.choice(classes),
             "tot_wrap_cpu": float(rng.randrange(1000)), "tot_requests": rng.randrange(1, 9), "id": f"{i:x}"} for i in range(n)]
    name = os.path.join(t.dir, "d.json.gz")
    with JSONDataFileWriter(name) as out:
        out.append(recs)
    reader = CMSDatasetTest0Reader(name)
    t.equal(len(reader), n, "length of a data set")
    t.near(reader.score_avg, sum(r["tot_wrap_cpu"] / r["tot_requests"] for r in recs) / n, "average score")
    t.equal(list(reader.scores), [r["tot_wrap_cpu"] / r["tot_requests"] for r in recs], "scores")
    lvls = rng.choice([0, 0, 1, 2])
    t.check(reader.gen_support_table(lvls) is reader, "gen_support_table gives the reader")
    table = reader.support_table.to_dict()
    for key in pools:
        used = [words_of(r["features"][key]) for r in recs]
        t.equal(sorted({c.split(" ")[0] for c in table["features"][key]} - {"__unknown__"}), sorted({w[0] for w in used if w} ), f"categories of {key}")
    t.count("reduced")
    used = sorted({r["class"] for r in recs}, key=str.lower)
    t.same(table["classes"], {"class": {c: i for i, c in enumerate(used)}}, "classes")
    t.equal(reader.get_num_classes(), len(used), "number of classes")
    if len(used) > 1:
        t.count("two classes")
    for _ in range(3):
        k = rng.choice([0, 1, 2, 3, 5, n])
        normalized, hot = rng.random() < .5, rng.random() < .4
        if k > n:
            continue
        rows = [converted(table, "features", r["features"], normalized) for r in recs]
        labels = [table["classes"]["class"][r["class"]] for r in recs]
        if hot:
            labels = [[1. if i == c else 0. for i in range(len(used))] for c in labels]
        got = list(reader.train_set(k_fold=k, normalized=normalized, one_hot=not normalized, one_hot_labels=hot))
        t.equal(len(got), max(k, 1), "number of folds")

        def rows_of(array):
            return array.tolist()
        if k == 0:
            x, y, rest = got[0]
            t.check(rest is None, "validation data without folds")
            t.same(rows_of(x), rows, "features of the training set")
            t.same(rows_of(y), labels, "labels of the training set")
            t.count("no folds")
        else:
            size = n // k
            for i, (x, y, (vx, vy)) in enumerate(got):
                a, b = i * size, (i + 1) * size
                t.same(rows_of(vx), rows[a:b], f"features of validation fold {i} of {k}")
                t.same(rows_of(vy), labels[a:b], f"labels of validation fold {i} of {k}")
                t.same(rows_of(x), rows[:a] + rows[b:], f"features trained on in fold {i} of {k}")
                t.same(rows_of(y), labels[:a] + labels[b:], f"labels trained on in fold {i} of {k}")
            t.count("folds")
            if n % k:
                t.count("leftover records")
        t.count("normalized" if normalized else "one hot")
        if hot:
            t.count("one hot labels")
        t.sig(n, k, n % (k or 1), normalized, hot, len(used), lvls)
    t.raises(AssertionError, lambda: list(reader.train_set(k_fold=-1)), "a negative number of folds")
    t.sample({"records": n, "folds": k, "normalized": normalized, "one hot labels": hot, "classes": used, "record": recs[0]})
