"""Data files: JSON and Avro (C40, C41)."""
import bz2
import gzip
import io
import json
import os
import pickle
from tempfile import TemporaryFile

from pcheck import register

TEXT = ["", "a", "è", "日本", "line\nbreak", 'quo"te', "back\\slash", "tab\t", " ", "null", "[1]", "{}", "avro", "\r", "\u2028",
        "x" * 300, "/store/data/Run2016B/a_b-c"]


def text(rng):
    return rng.choice(TEXT) if rng.random() < .5 else "".join(rng.choice("abcxyz_/-. 0123é\n") for _ in range(rng.randrange(12)))


def number(rng):
    return rng.choice([0, 1, -1, 2**31, -2**40, 10**18, rng.randrange(-1000, 1000)])


def real(rng):
    return rng.choice([0.0, 0.1, -2.5, 1e-9, 1.7e300, 123456.789, rng.random() * 1e6, rng.uniform(-1, 1)])


def value(rng, depth=0):
    kind = rng.randrange(8 if depth < 3 else 5)
    if kind == 0:
        return number(rng)
    if kind == 1:
        return real(rng)
    if kind == 2:
        return rng.choice([True, False, None])
    if kind < 5:
        return text(rng)
    if kind == 5:
        return [value(rng, depth + 1) for _ in range(rng.randrange(4))]
    return record(rng, depth + 1)


def record(rng, depth=0):
    return {text(rng): value(rng, depth) for _ in range(rng.choice([0, 1, 2, 3, 5]))}


def pretty(rng, obj):
    """A JSON string of obj, not the way json.dumps writes it by default."""
    return rng.choice([
        lambda: json.dumps(obj), lambda: json.dumps(obj, indent=rng.choice([0, 2])),
        lambda: " \n " + json.dumps(obj, ensure_ascii=False) + "\n\n",
        lambda: json.dumps(obj, separators=(",", ":")), lambda: json.dumps(obj, sort_keys=True)])()


NOT_JSON = ["", "{", "{'a': 1}", "[1,", "nul", "hello", '{"a": 1} {"b": 2}', "\n"]


def seq(items):
    yield from items


@register("C40", quick=6400, deep=20000, timeout=60,
          rule="A case is one JSON data file written in several appends (and reopenings) and read in several ways; "
               "a situation is (format, way of writing, number of records, way of reading).",
          need=["append", "reopen", "refused", "iterate", "index", "negative", "slice", "reversed", "start_from",
                "checkpoint", "no final newline", "beyond", "datafile", "memory", "chunks", "pickled"])
def json_files(t):
    from DataManager.collector.api import DataFile
    from DataManager.collector.datafile.json import JSONDataFileReader, JSONDataFileWriter
    rng = t.rng
    ext = rng.choice([".json", ".json.gz", ".json.bz2", "memory"])
    name = os.path.join(t.dir, "data" + (ext if ext != "memory" else ".json"))
    want, log = [], []
    memory = None

    def write(writer):
        for _ in range(rng.randrange(4)):
            objs = [record(rng) for _ in range(rng.choice([0, 1, 1, 2, 3, 6, 20 if t.deep else 8]))]
            how = rng.choice(["dict", "str", "list", "strings", "mixed", "generator", "bad", "badlist"])
            log.append((how, len(objs)))
            t.count("append")
            if how == "dict":
                for obj in objs[:2]:
                    keep = json.dumps(obj)
                    writer.append(obj)
                    t.equal(json.dumps(obj), keep, "the appended dictionary was changed")
                want.extend(objs[:2])
            elif how == "str":
                obj = rng.choice([value(rng), record(rng)])
                writer.append(pretty(rng, obj))
                want.append(obj)
            elif how in ("list", "strings", "mixed", "generator"):
                data = [obj if how == "list" or how != "strings" and rng.random() < .5 else pretty(rng, obj) for obj in objs]
                writer.append(seq(data) if how == "generator" else data)
                want.extend(objs)
            elif how == "bad":
                bad = rng.choice(NOT_JSON)
                t.raises(Exception, lambda: writer.append(bad), f"appending {bad!r}, which is not a JSON,")
                t.count("refused")
            else:
                t.raises(Exception, lambda: writer.append(objs + [rng.choice(NOT_JSON)]), "a list with a string that is not a JSON")
                want.extend(objs)
                t.count("refused")

    if ext == "memory":
        memory = io.BytesIO()
        writer = JSONDataFileWriter(descriptor=memory)
        write(writer)
        if rng.random() < .5:
            t.equal(len(JSONDataFileReader(descriptor=io.BytesIO(writer.raw_data))), len(want), "length while writing")
            memory.seek(0, 2)
            write(writer)
        raw = writer.raw_data
    else:
        if rng.random() < .2:       # an older file under the same name is replaced
            with JSONDataFileWriter(name) as writer:
                writer.append({"old": 1})
        for n in range(rng.choice([1, 1, 2, 3])):
            first = None
            if rng.random() < .3:
                first = record(rng)
                want.append(first)
            with JSONDataFileWriter(name, append=n > 0, data=first) as writer:
                write(writer)
            if n:
                t.count("reopen")
        opener = {".json": open, ".json.gz": gzip.open, ".json.bz2": bz2.open}[ext]
        with opener(name, "rb") as f:
            raw = f.read()
        if want and rng.random() < .25:
            t.check(raw.endswith(b"\n"), "the last record has no final newline")
            with opener(name, "wb") as f:
                f.write(raw[:-1])
            t.count("no final newline")
    t.same([json.loads(line) for line in raw.decode().split("\n") if line], want, "lines of the written file")
    t.sample({"format": ext, "written": log, "records": want[:2]})

    def opened():
        if ext == "memory":
            if rng.random() < .5:
                t.count("memory")
                return DataFile(writer), "writer"
            t.count("memory")
            return rng.choice([lambda: DataFile(io.BytesIO(raw)), lambda: JSONDataFileReader(descriptor=io.BytesIO(raw))])(), "memory"
        if ext != ".json" and rng.random() < .5:
            t.count("datafile")
            got = DataFile(name)
            if rng.random() < .3:
                got = pickle.loads(pickle.dumps(got))
                t.count("pickled")
            return got, "datafile"
        return JSONDataFileReader(name), "reader"

    n = len(want)
    for _ in range(2):
        reader, kind = opened()
        for _ in range(rng.randrange(3, 12)):
            how = rng.choice(["len", "iterate", "index", "index", "index", "negative", "slice", "slice", "reversed", "beyond",
                              "start_from", "checkpoint", "chunks", "raw", "partial"])
            t.sig(ext, kind, how, min(n, 12), len(log))
            if how == "len":
                t.equal(len(reader), n, "length")
            elif how == "raw" and not raw.endswith(b"\n"):
                pass
            elif how == "raw" and not t.counters.get("no final newline"):
                t.equal(reader.raw_data, raw, "raw data")
            elif how == "iterate":
                t.same(list(reader), want, f"iteration ({kind}, {ext})")
                t.count("iterate")
            elif how == "index" and n:
                i = rng.choice([0, n - 1, rng.randrange(n)])
                t.same(reader[i], want[i], f"record {i} of {n}")
                t.count("index")
            elif how == "negative" and n:
                i = -rng.choice([1, n, rng.randrange(1, n + 1)])
                t.same(reader[i], want[i], f"record {i} of {n}")
                t.count("negative")
            elif how == "beyond":
                i = rng.choice([n, n + 3, -n - 1, -n - 5])
                t.raises(IndexError, lambda: reader[i], f"record {i} of {n}")
                t.count("beyond")
            elif how == "slice":
                a, b = sorted(rng.randrange(n + 4) for _ in range(2))
                step = rng.choice([None, 1, 1, 2, 3])
                a0 = None if a == 0 and rng.random() < .5 else a
                t.same(reader[a0:b:step], want[a:b:step], f"slice {a0}:{b}:{step} of {n}")
                t.count("slice")
            elif how == "reversed":
                a, b = sorted(rng.sample(range(n + 4), 2), reverse=True)
                t.same(reader[a:b], list(reversed(want[b + 1:a + 1])), f"slice {a}:{b} of {n}")
                t.count("reversed")
            elif how == "start_from" and hasattr(reader, "start_from"):
                i = rng.randrange(n + 2)
                t.same(list(reader.start_from(i)), want[i:], f"start from {i} of {n}")
                t.raises(Exception, lambda: list(reader.start_from(-1 - i)), "a negative start")
                t.count("start_from")
            elif how == "partial":
                it = iter(reader)
                k = rng.randrange(n + 1)
                t.same([next(it) for _ in range(k)], want[:k], f"first {k} of {n}")
                t.count("partial")
            elif how == "checkpoint" and hasattr(reader, "add_checkpoint") and n:
                # the position at which record i starts
                i = rng.randrange(n)
                pos = 0
                for _ in range(i):
                    pos = raw.index(b"\n", pos) + 1
                reader.add_checkpoint(i, pos)
                t.count("checkpoint")
            elif how == "chunks" and hasattr(reader, "get_chunks"):
                size = rng.randrange(1, 6)
                t.same(list(reader.get_chunks(size)), [want[k:k + size] for k in range(0, n, size)], f"chunks of {size} of {n}")
                t.same(list(reader.get_data()), want, "get_data")
                t.count("chunks")


AVRO_TYPES = ["int", "float", "string", "bytes", "bool", "null", "ints", "floats", "strings", "map", "record"]


def avro_value(rng, kind, shape):
    if kind == "int":
        return number(rng)
    if kind == "float":
        return real(rng)
    if kind == "string":
        return text(rng)
    if kind == "bytes":
        return bytes(rng.randrange(256) for _ in range(rng.randrange(6)))
    if kind == "bool":
        return rng.random() < .5
    if kind == "null":
        return None
    if kind in ("ints", "floats", "strings"):
        return [avro_value(rng, kind[:-1], None) for _ in range(rng.randrange(1, 5))]
    if kind == "map":
        return {f"k{i}{text(rng)}": avro_value(rng, shape, None) for i in range(rng.randrange(1, 4))}
    return {name: avro_value(rng, k, s) for name, (k, s) in shape.items()}


def avro_shape(rng, depth=0):
    """Fields of a record: at least two kinds, so that it is not taken for a map; one nested record at most per level."""
    kinds = rng.sample(AVRO_TYPES[:10], rng.randrange(2, 6))
    if len({"map" if k == "map" else "list" if k.endswith("s") and k not in ("bytes",) else k for k in kinds}) < 2:
        kinds = ["int", "string"]
    if depth < 3 and rng.random() < .4:
        kinds.append("record")
    rng.shuffle(kinds)
    return {f"f{i}": (k, rng.choice(["int", "string", "float", "bool"]) if k == "map" else
                      avro_shape(rng, depth + 1) if k == "record" else None) for i, k in enumerate(kinds)}


@register("C41", quick=4800, deep=16000, timeout=60,
          rule="A case is one Avro data file of records of a generated shape, written in several appends and read in several ways; "
               "a situation is (field kinds, source, number of records, way of reading).",
          need=["append", "empty append", "iterate", "index", "slice", "reversed", "beyond", "datafile", "refused", "chunks"])
def avro_files(t):
    from DataManager.collector.api import DataFile
    from DataManager.collector.datafile.avro import AvroDataFileReader, AvroDataFileWriter
    rng = t.rng
    shape = avro_shape(rng)

    def rec():
        return avro_value(rng, "record", shape)
    where = rng.choice(["memory", "temp", "file"])
    name = os.path.join(t.dir, "data.avro")
    want = []
    target = {"memory": io.BytesIO, "temp": TemporaryFile, "file": lambda: name}[where]()
    first = rec() if rng.random() < .3 else None
    writer = AvroDataFileWriter(target, data=first)
    if first is not None:
        want.append(first)
    # a file opened by name is written in one go
    for _ in range(rng.randrange(1, 5) if where != "file" else 0 if first is not None else 1):
        how = rng.choice(["dict", "list", "list", "empty", "bad"])
        objs = [rec() for _ in range(rng.choice([1, 2, 3, 9, 60 if t.deep else 20]))]
        t.count("append")
        if how == "dict":
            writer.append(objs[0])
            want.append(objs[0])
        elif how == "list":
            writer.append(objs)
            want.extend(objs)
        elif how == "empty":
            writer.append([])
            t.count("empty append")
        else:
            t.raises(Exception, lambda: writer.append(objs + ["no record"]), "a list with something else than a dictionary")
            t.raises(Exception, lambda: writer.append("no record"), "a string")
            t.count("refused")
    n = len(want)
    if n == 0:
        return
    if where == "file":
        with writer:
            pass
        def source():
            return name
    else:
        def source():       # a reader closes what it reads
            return io.BytesIO(writer.raw_data)
    kinds = sorted(k for k, _ in shape.values())
    t.sample({"kinds": kinds, "records": n, "where": where})
    for _ in range(2):
        if rng.random() < .6:
            reader = DataFile(writer if where != "file" and rng.random() < .5 else source())
            t.count("datafile")
        else:
            reader = AvroDataFileReader(source())
        for _ in range(rng.randrange(3, 9)):
            how = rng.choice(["len", "iterate", "index", "index", "slice", "reversed", "beyond", "chunks", "raw", "partial"])
            t.sig(tuple(kinds), where, how, min(n, 12))
            if how == "len":
                t.equal(len(reader), n, "length")
            elif how == "raw" and where != "file":
                t.equal(reader.raw_data, writer.raw_data, "raw data")
            elif how == "iterate":
                t.same(list(reader), want, "iteration")
                t.count("iterate")
            elif how == "index":
                i = rng.choice([0, n - 1, rng.randrange(n)])
                t.same(reader[i], want[i], f"record {i} of {n}")
                t.count("index")
            elif how == "slice":
                a, b = sorted(rng.randrange(n + 1) for _ in range(2))
                step = rng.choice([None, 1, 1, 2, 3])
                t.same(reader[a:b:step], want[a:b:step], f"slice {a}:{b}:{step} of {n}")
                t.count("slice")
            elif how == "reversed" and n > 1:
                a, b = sorted(rng.sample(range(n), 2), reverse=True)
                t.same(reader[a:b], list(reversed(want[b + 1:a + 1])), f"slice {a}:{b} of {n}")
                t.count("reversed")
            elif how == "partial":
                it = iter(reader)
                k = rng.randrange(n + 1)
                t.same([next(it) for _ in range(k)], want[:k], f"first {k} of {n}")
            elif how == "beyond":
                i = rng.choice([n, n + 3])
                t.raises(IndexError, lambda: reader[i], f"record {i} of {n}")
                t.raises(IndexError, lambda: reader[0:n + 2], f"slice 0:{n + 2} of {n}")
                t.count("beyond")
            elif how == "chunks" and hasattr(reader, "get_chunks"):
                size = rng.randrange(1, 6)
                t.same(list(reader.get_chunks(size)), [want[k:k + size] for k in range(0, n, size)], f"chunks of {size} of {n}")
                t.count("chunks")
