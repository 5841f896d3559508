"""The command line agent, its HTTP client and the row converters (C52, C53)."""
import bz2
import contextlib
import gzip
import hashlib
import io
import json
import os
import re
import runpy
import sys
from http.server import BaseHTTPRequestHandler

from p_data import record, text
from p_stage import Service, avro_bytes, basic
from pcheck import register


class Archive(BaseHTTPRequestHandler):
    """A document archive that logs what it was asked and refuses the requests named in `refuse`."""
    protocol_version = "HTTP/1.1"

    def log_message(self, *args):
        pass

    def handle_one(self):
        srv = self.server
        body = self.rfile.read(int(self.headers.get("Content-Length") or 0))
        status = srv.refuse.get(len(srv.asked), srv.good[len(srv.asked) % len(srv.good)])
        srv.asked.append((self.command, self.path, self.headers.get("Authorization"),
                          (self.headers.get("Content-Type") or "").split(";")[0], body))
        out = json.dumps({"status": status}).encode()
        self.send_response(status)
        self.send_header("Content-Length", str(len(out)))
        self.end_headers()
        self.wfile.write(out)

    do_GET = do_PUT = do_DELETE = do_POST = handle_one


def run_agent(*args):
    """Runs `python -m DataManager.agent args`; gives its exit status and its output."""
    out, status, argv = io.StringIO(), 0, sys.argv
    sys.argv = ["agent"] + [str(a) for a in args]
    try:
        with contextlib.redirect_stdout(out):
            runpy.run_module("DataManager.agent", run_name="__main__")
    except SystemExit as err:
        status = 0 if err.code is None else err.code
    finally:
        sys.argv = argv
    return status, out.getvalue()


def flat(rng, i):
    return {"id": i, "name": "".join(rng.choice("abcé/_ ") for _ in range(rng.randrange(6))),
            "weight": rng.choice([0.5, -1.25, float(i)])}


def make_source(t, rng, n):
    """A data file of n records: its name and the records it has."""
    ext = rng.choice([".json.gz", ".json.bz2", ".json.gz", ".avro"])
    name = os.path.join(t.dir, "source" + ext)
    if ext == ".avro":
        records = [flat(rng, i) for i in range(max(1, n))]
        with open(name, "wb") as f:
            f.write(avro_bytes(records))
        return name, records, ext
    records = [record(rng) for _ in range(n)]
    if records and rng.random() < .3:        # the same record more than once
        for _ in range(rng.randrange(3)):
            records.insert(rng.randrange(len(records) + 1), rng.choice(records))
    with (gzip.open if ext == ".json.gz" else bz2.open)(name, "wt", newline="") as f:
        f.write("".join(json.dumps(r) + "\n" for r in records))
    return name, records, ext


def digest(body):
    return hashlib.blake2s(body).hexdigest()


@register("C52", quick=900, deep=16000, timeout=90,
          rule="A case is one `put` of a data file into an archive on the loopback; a situation is "
               "(file format, records, bulk size, start, outcome, refused request).",
          need=["single", "bulk", "partial bucket", "full bucket", "start", "start beyond", "refused single", "refused bulk",
                "refused last", "with user", "without user", "colon in password", "no slash", "empty source", "same record twice"])
def put(t):
    rng = t.rng
    n = rng.choice([0, 1, 2, 3, 5, 8, 13, 40 if t.deep else 21])
    name, records, ext = make_source(t, rng, n)
    n = len(records)
    bulk = rng.choice([0, 0, 1, 2, 3, 5, max(1, n), n + 1, 100])
    start = rng.choice([0, 0, 0, 1, 2, n - 1 if n else 0, n, n + 3])
    todo = records[start:]
    groups = [todo[i:i + bulk] for i in range(0, len(todo), bulk)] if bulk else [[r] for r in todo]
    user = rng.choice(["", "", "user:password", "user:", "a b:c=d&e", "user:pass:word"])
    refuse = {}
    if groups and rng.random() < .35:
        refuse[rng.choice([0, len(groups) - 1, rng.randrange(len(groups))])] = rng.choice([202, 400, 401, 403, 404, 409, 429, 500, 503])
    good = rng.choice([[200], [201], [200, 201]])
    where = rng.choice(["/archive", "/archive/", "/a/b/_doc", "/a/_doc/"])
    with Service(Archive, refuse=refuse, good=good) as service:
        args = ["put", name, service.url + where]
        options = []
        if user:
            options.append(["--auth", user])
        if bulk or rng.random() < .2:
            options.append(["--bulk", bulk])
        if start or rng.random() < .2:
            options.append(["--start-from-index", start])
        if rng.random() < .2:
            options.append(["--source-type", "file"])
        if rng.random() < .2:
            options.append(["--dest-type", "elasticsearchhttp"])
        rng.shuffle(options)
        flat_options = [x for o in options for x in o]
        cut = rng.choice([0, len(flat_options)])
        status, out = run_agent("put", *flat_options[:cut], *args[1:], *flat_options[cut:])
        asked = list(service.server.asked)
    base = where if where.endswith("/") else where + "/"
    if not where.endswith("/"):
        t.count("no slash")
    stop = min(refuse) if refuse else len(groups)
    expected = groups[:stop + 1]
    seen = []
    for command, path, auth, kind, body in asked:
        t.equal(command, "PUT", "method of the request")
        t.equal(auth, basic(*user.split(":", 1)) if user else None, "authorization of the request")
        t.equal(kind, "application/json", "type of the content")
        if bulk:
            t.equal(path, base + "_bulk", "path of a bulk insertion")
            t.check(body.endswith(b"\n"), "a bulk insertion has to end with a newline")
            lines = body[:-1].split(b"\n")
            t.check(len(lines) % 2 == 0, "odd number of lines in a bulk insertion")
            got = []
            for head, doc in zip(lines[::2], lines[1::2]):
                t.same(json.loads(head), {"index": {"_id": digest(doc)}}, "action line of a bulk insertion")
                got.append(json.loads(doc))
            seen.append(got)
        else:
            t.equal(path, base + digest(body), "path of an insertion")
            seen.append([json.loads(body)])
    t.same(seen, expected, "records sent, request by request")
    if refuse:
        t.check(status != 0, "exit status %r after a refused insertion", status)
        t.check(len(asked) == stop + 1, "%d requests, the refused one was number %d", len(asked), stop)
        t.count("refused bulk" if bulk else "refused single")
        if stop == len(groups) - 1:
            t.count("refused last")
    else:
        t.equal(status, 0, "exit status")
        items = re.findall(r"\[(\d+) items\]", out)
        t.same([int(x) for x in items], [n], "items reported at the end")
    t.count("bulk" if bulk else "single", len(groups))
    if bulk and groups:
        t.count("full bucket" if len(groups[-1]) == bulk else "partial bucket")
    if start:
        t.count("start beyond" if start >= n else "start")
    t.count("with user" if user else "without user")
    t.count("colon in password", user.count(":") > 1)
    t.count("empty source", not records)
    t.count("same record twice", len({json.dumps(r) for r in todo}) < len(todo))
    t.sig(ext, min(n, 6), bulk, start, bool(user), bool(refuse), min(stop, 5))
    t.sample({"format": ext, "records": n, "bulk": bulk, "start": start, "refused": refuse, "requests": len(asked)})


# ---- get, and the rows of the converters ---------------------------------------------


def plain(rng):
    return rng.choice([0, 1, -5, 0.5, 1e-9, 2.0, True, None, "x", "é", "a b", 10**12, rng.randrange(1000), rng.random()])


@register("C53", quick=4800, deep=40000, timeout=60,
          rule="A case is one `get` of the agent, or one set of rows made by the converters; a situation is "
               "(what, format, records, index or shape).",
          need=["index", "negative", "slice", "step", "open start", "reversed", "beyond", "missing file", "csv dict", "csv list", "svm",
                "svm refused", "ten features", "other label"])
def get_and_rows(t):
    rng = t.rng
    if rng.random() < .4:
        return rows(t)
    name, records, ext = make_source(t, rng, rng.choice([1, 2, 3, 5, 9, 14]))
    n = len(records)
    kind = rng.choice(["index", "index", "negative", "slice", "slice", "step", "open start", "reversed", "beyond", "missing file"])
    if ext == ".avro" and kind == "negative":
        kind = "index"
    extra = rng.choice([[], [], ["--type", "file"]])
    a = rng.randrange(n)
    b = rng.randrange(a, n)
    step = rng.randrange(1, 4)
    if kind == "missing file":
        t.raises(Exception, lambda: run_agent("get", name + "x", "0"), "a file that does not exist")
        t.count(kind)
        return
    if kind == "beyond":
        t.raises(Exception, lambda: run_agent("get", name, n + rng.randrange(3)), "an index beyond the last record")
        t.count(kind)
        return
    if kind == "index":
        index, want = str(a), records[a]
    elif kind == "negative":
        index, want = str(a - n), records[a]
    elif kind == "slice":
        index, want = f"[{a}:{b}]", records[a:b]
    elif kind == "step":
        index, want = f"[{a}:{b}:{step}]", records[a:b:step]
    elif kind == "open start":
        index, want = f"[:{b}]", records[:b]
    else:
        index, want = f"[{b}:{a}]", records[b:a:-1]
    args = rng.choice([["get"] + extra + [name, index], ["get", name, index] + extra])
    status, out = run_agent(*args)
    t.equal(status, 0, "exit status")
    lines = out.rstrip("\n")
    t.check(lines == str(want) or lines.endswith("\n" + str(want)), "get %s of %d records printed %r, expected the record(s) %r",
            index, n, lines[-300:], str(want)[-300:])
    t.count(kind)
    t.sig(kind, ext, min(n, 9), index)
    t.sample({"index": index, "records": n, "format": ext})


def rows(t):
    from DataManager.agent.converter.csv import CSVConverter
    from DataManager.agent.converter.libSVM import LibSVMConverter
    rng = t.rng
    csv, svm = CSVConverter(), LibSVMConverter()
    for _ in range(rng.randrange(1, 4)):
        size = rng.choice([0, 1, 2, 3, 5, 10, 12, 25])
        names = rng.choice([["feature_%d" % i for i in range(size)], ["f%d" % i for i in range(size)],
                            ["".join(rng.choice("aAbBzZ_9") for _ in range(rng.randrange(1, 4))) for _ in range(size)],
                            [text(rng) for _ in range(size)]])
        names = list(dict.fromkeys(names))
        data = {k: plain(rng) for k in rng.sample(names, len(names))}
        if len(data) >= 10:
            t.count("ten features")
        what = rng.choice(["csv dict", "csv list", "svm", "svm refused"])
        keep = dict(data)
        if what == "csv dict":
            t.same(csv.row(data), ",".join(str(data[k]) for k in sorted(data)), f"CSV row of {data!r}")
        elif what == "csv list":
            values = rng.choice([list, tuple])(data.values())
            t.same(csv.row(values), ",".join(str(v) for v in values), f"CSV row of {values!r}")
        elif what == "svm":
            label = rng.choice(["label", "label", "target", "feature_1", "zz", "Label", "aA"])
            data[label] = rng.choice([0, 1, -1, 2.5, "yes"])
            keep = dict(data)
            want = str(data[label]) + " " + " ".join(
                "%d:%s" % (i, data[k]) for i, k in enumerate(sorted(k for k in data if k != label), 1))
            got = svm.labeled_row(data) if label == "label" and rng.random() < .5 else svm.labeled_row(data, label)
            t.same(got.rstrip(" "), want.rstrip(" "), f"libSVM row of {data!r} with label {label!r}")
            if label != "label":
                t.count("other label")
        else:
            data.pop("label", None)
            keep = dict(data)
            t.raises(Exception, lambda: svm.labeled_row(data), "a record without the label")
            t.raises(Exception, lambda: svm.labeled_row(list(data.values())), "a list of values")
        t.same(data, keep, "the converted record")
        t.count(what)
        t.sig(what, size)
