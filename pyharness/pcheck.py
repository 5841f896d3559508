#!/usr/bin/env python3
"""Runtime monitors of the Python parts of /repo.

  pcheck.py check PROP quick|thorough   run every case of a property in parallel workers
  pcheck.py replay FILE                 re-run the single case a VIOLATION line names
"""
import hashlib
import importlib
import json
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs"))
from stubgap import StubGap

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.environ.get("VERIF_DIR", os.path.dirname(HERE))
REPO = os.environ.get("PY_REPO", "/repo")
MODULES = ["p_data", "p_stage", "p_table", "p_pycache", "p_agent", "p_probe", "p_stats", "p_scripts", "p_analysis", "p_dash", "p_plots", "p_small"]
STUBS = ["numpy", "pandas", "requests", "fastavro", "pyspark", "tqdm", "yaspin", "urllib3", "typer"]
PROPS = {}


class Fail(Exception):
    def __init__(self, msg, key=""):
        super().__init__(msg)
        self.key = key


class CaseTimeout(BaseException):
    pass


class Prop:
    def __init__(self, id, quick, deep, run, rule, timeout=60, need=(), workers=8):
        self.id, self.quick, self.deep, self.run, self.rule = id, quick, deep, run, rule
        self.timeout, self.need, self.workers = timeout, need, workers


def register(id, quick, deep, rule, timeout=60, need=(), workers=8):
    def deco(fun):
        PROPS[id] = Prop(id, quick, deep, fun, rule, timeout, need, workers)
        return fun
    return deco


class T:
    """The context of one case."""

    def __init__(self, prop, case, seed, tier, directory, sigs):
        self.rng = random.Random(int.from_bytes(hashlib.blake2b(
            f"{prop}/{seed}/{case}".encode(), digest_size=8).digest(), "big"))
        self.case, self.seed, self.deep, self.dir = case, seed, tier == "thorough", directory
        self.evals, self.counters, self.samples, self.viols, self._sigs = 0, {}, [], [], sigs

    def fail(self, msg, key=""):
        raise Fail(msg, key)

    def check(self, cond, msg, *args):
        self.evals += 1
        if not cond:
            raise Fail(msg % args if args else msg)

    def equal(self, got, want, what):
        self.evals += 1
        if got != want or type(got) is not type(want) and not (
                isinstance(got, (int, float)) and isinstance(want, (int, float))):
            raise Fail(f"{what}: got {short(got)}, expected {short(want)}")

    def same(self, got, want, what):
        """Equal in value and in type, at every level."""
        self.evals += 1
        where = differ(got, want, "")
        if where:
            raise Fail(f"{what}{where}; got {short(got)}, expected {short(want)}")

    def near(self, got, want, what, rel=1e-9):
        self.evals += 1
        if not abs(got - want) <= rel * max(1.0, abs(want)):
            raise Fail(f"{what}: got {got!r}, expected {want!r}")

    def raises(self, exc, fun, what):
        self.evals += 1
        try:
            got = fun()
        except exc:
            return
        raise Fail(f"{what}: not refused, gave {short(got)}")

    def count(self, key, n=1):
        self.counters[key] = self.counters.get(key, 0) + n

    def sig(self, *args):
        if len(self._sigs) < 300000:
            self._sigs.add(hashlib.blake2b(repr(args).encode(), digest_size=8).hexdigest())

    def sample(self, obj):
        if len(self.samples) < 1:
            self.samples.append(json.loads(json.dumps(obj, default=repr)))


def differ(a, b, path):
    if type(a) is not type(b):
        return f": at {path or 'top'} {short(a)} instead of {short(b)}"
    if isinstance(a, dict):
        if a.keys() != b.keys():
            return f": at {path or 'top'} keys {short(sorted(a, key=repr))} instead of {short(sorted(b, key=repr))}"
        for k in a:
            out = differ(a[k], b[k], f"{path}[{k!r}]")
            if out:
                return out
    elif isinstance(a, (list, tuple)):
        for i, (x, y) in enumerate(zip(a, b)):
            out = differ(x, y, f"{path}[{i}]")
            if out:
                return out
        if len(a) != len(b):
            return f": at {path or 'top'} {len(a)} instead of {len(b)} elements"
    elif a != b and not (a != a and b != b):
        return f": at {path or 'top'} {short(a)} instead of {short(b)}"
    return ""


def short(obj):
    text = repr(obj)
    return text if len(text) < 400 else text[:400] + "..."


def load():
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    sys.path.insert(0, os.path.join(HERE, "stubs"))
    sys.path.insert(0, HERE)
    sys.modules["pcheck"] = sys.modules["__main__"]
    for name in MODULES:
        if os.path.exists(os.path.join(HERE, name + ".py")):
            importlib.import_module(name)


def kill_children():
    import multiprocessing
    for child in multiprocessing.active_children():
        child.kill()


def stub_has_no(err):
    """Is it a call of a stand-in library with arguments that it, other than the library, does not take?"""
    if not isinstance(err, TypeError):
        return None
    found = re.match(r"([\w.<>]+)\(\) (got an unexpected keyword argument|takes |got some positional-only|"
                     r"got multiple values|missing )", str(err))
    frames = traceback.extract_tb(err.__traceback__)
    if not found or not frames or frames[-1].filename.startswith(HERE):
        return None
    first, last = found.group(1).split(".")[0], found.group(1).split(".")[-1]
    for lib in STUBS:
        mod = sys.modules.get(lib)
        if mod is None or not str(getattr(mod, "__file__", "")).startswith(HERE):
            continue
        if first in vars(mod):
            return lib + "." + found.group(1)
    return None


def run_case(prop, case, seed, tier, directory, sigs):
    t = T(prop.id, case, seed, tier, directory, sigs)

    def on_alarm(*_):
        raise CaseTimeout()
    gaps = os.environ["STUB_GAP"] = directory + ".gap"
    missing = None
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(prop.timeout)
    try:
        prop.run(t)
    except StubGap as err:
        missing = str(err)
    except Fail as err:
        t.viols.append({"key": err.key, "msg": str(err)})
    except CaseTimeout:
        where = traceback.format_exc().strip().splitlines()
        t.viols.append({"key": "", "msg": f"not finished after {prop.timeout} s: " + " | ".join(
            line.strip() for line in where if REPO in line)[-300:]})
    except MemoryError:
        t.viols.append({"key": "", "msg": "memory exhausted"})
    except (Exception, SystemExit) as err:
        missing = stub_has_no(err)
        where = [line.strip() for line in traceback.format_exc().splitlines() if 'File "' in line]
        t.viols.append({"key": "", "msg": f"unexpected {type(err).__name__}: {short(err)} at " + " | ".join(where[-4:])})
    finally:
        signal.alarm(0)
        kill_children()
    if os.path.exists(gaps):
        with open(gaps) as f:
            missing = f.readline().strip()
        os.unlink(gaps)
    if missing:         # the stand-in of a library lacks what the code asks for: the case tells nothing
        t.viols = []
        t.count("not judged: " + missing)
    return t


def worker(prop, start, step, total, seed, tier, out_path, directory):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    out = open(out_path, "a")
    devnull = os.open(os.devnull, os.O_RDWR)
    if not os.environ.get("PCHECK_SHOW"):
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    os.dup2(devnull, 0)

    def emit(obj):
        out.write(json.dumps(obj) + "\n")
        out.flush()
    sigs = set()
    for case in range(start, total, step):
        cdir = os.path.join(directory, f"case{case}")
        os.makedirs(cdir)
        os.chdir(cdir)
        tempfile.tempdir = cdir
        emit({"kind": "start", "case": case})
        t = run_case(prop, case, seed, tier, cdir, sigs)
        emit({"kind": "done", "case": case, "evals": t.evals, "counters": t.counters,
              "samples": t.samples, "viols": t.viols})
        os.chdir(directory)
        shutil.rmtree(cdir, ignore_errors=True)
        if t.viols and os.environ.get("PCHECK_FIRST"):      # development: the first violation is enough
            break
    emit({"kind": "shard", "sigs": sorted(sigs)})
    out.close()
    os._exit(0)


def known_findings(prop):
    out = {}
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            fields = line.split()
            if fields[:1] == ["known:"] and fields[1] == "property=" + prop and fields[2].startswith("key="):
                out[fields[2][4:]] = " ".join(fields[3:])
    except OSError:
        pass
    return out


def spawn(prop, start, step, total, seed, tier, out_path, directory):
    os.makedirs(directory, exist_ok=True)
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", TMPDIR=directory)
    return subprocess.Popen([sys.executable, os.path.abspath(__file__), "worker", prop.id, str(start), str(step),
                             str(total), str(seed), tier, out_path, directory], env=env, start_new_session=True)


def kill_group(proc):
    try:
        os.killpg(proc.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


def check(prop, tier, seed):
    begin = time.time()
    total = prop.deep if tier == "thorough" else prop.quick
    total = int(os.environ.get("PCHECK_CASES", total))
    n = max(1, min(int(os.environ.get("PCHECK_WORKERS", prop.workers)), os.cpu_count() or 1, total))
    scratch = tempfile.mkdtemp(prefix="py-" + prop.id + "-", dir=os.environ.get("VH_SCRATCH"))
    evals, cases, counters, samples, viols, sigs = 0, 0, {}, [], [], set()
    running = {}
    for w in range(n):
        running[w] = (spawn(prop, w, n, total, seed, tier, os.path.join(scratch, f"o{w}-0"), os.path.join(scratch, f"d{w}-0")), 0, time.time())
    seen = {}          # worker -> (case, since) as far as its log tells
    try:
        while running:
            time.sleep(0.05)
            for w, (proc, gen, _) in list(running.items()):
                path = os.path.join(scratch, f"o{w}-{gen}")
                state = proc.poll()
                last = None
                try:
                    with open(path) as f:
                        lines = [json.loads(x) for x in f.read().splitlines() if x.endswith("}")]
                except (OSError, ValueError):
                    lines = []
                if lines:
                    last = lines[-1]
                    if seen.get(w, (None,))[0] != (gen, len(lines)):
                        seen[w] = ((gen, len(lines)), time.time())
                hung = last and last["kind"] == "start" and time.time() - seen[w][1] > prop.timeout + 20
                if state is None and not hung:
                    continue
                kill_group(proc)
                proc.wait()
                del running[w]
                for obj in lines:
                    if obj["kind"] == "done":
                        cases += 1
                        evals += obj["evals"]
                        for k, v in obj["counters"].items():
                            counters[k] = counters.get(k, 0) + v
                        if len(samples) < 10:
                            samples += obj["samples"]
                        viols += [dict(v, case=obj["case"]) for v in obj["viols"]]
                    elif obj["kind"] == "shard":
                        sigs.update(obj["sigs"])
                if not last or last["kind"] != "shard":
                    crashed = last["case"] if last else None
                    if crashed is None:
                        print(f"worker of {prop.id} did not start", file=sys.stderr)
                        return 2
                    viols.append({"key": "", "case": crashed, "msg": "the process hung" if hung else
                                  f"the process ended with status {state}"})
                    if crashed + n < total and len(viols) < 6:
                        running[w] = (spawn(prop, crashed + n, n, total, seed, tier, os.path.join(scratch, f"o{w}-{gen+1}"),
                                            os.path.join(scratch, f"d{w}-{gen+1}")), gen + 1, time.time())
    finally:
        for proc, _, _ in running.values():
            kill_group(proc)
        shutil.rmtree(scratch, ignore_errors=True)

    known = known_findings(prop.id)
    real, hit = [], set()
    for v in sorted(viols, key=lambda v: v["case"]):
        if v["key"] and v["key"] in known:
            hit.add(v["key"])
        else:
            real.append(v)
    for key in sorted(hit):
        print(f"KNOWN-FINDING: property={prop.id} {known[key]}")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop.id + ".json"), "w") as f:
        json.dump({"property": prop.id, "tier": tier, "seed": seed, "level": "exploration",
                   "coverage": {"evaluations": evals, "distinct_nontrivial": len(sigs), "rule": prop.rule,
                                "samples": samples[:6], "cases": cases, "events": counters},
                   "wall_s": round(time.time() - begin, 3),
                   "violations": len(real)}, f, indent=1)
    if real:
        for i, v in enumerate(real[:3]):
            path = os.path.join(VERIF, "replays", f"{prop.id}-{i}.json")
            with open(path, "w") as f:
                json.dump({"property": prop.id, "case": v["case"], "seed": seed, "tier": tier, "key": v["key"],
                           "what": v["msg"]}, f, indent=1)
            print(f"VIOLATION property={prop.id} replay={path}")
            print("  case %d: %s" % (v["case"], v["msg"]))
        return 1
    missing = [k for k in prop.need if not counters.get(k)]
    blind = sum(n for k, n in counters.items() if k.startswith("not judged: "))
    if blind:
        print(f"{prop.id}: {blind} cases not judged, a stand-in library lacks what the code uses")
    elif missing:
        print(f"{prop.id}: the workload never reached {missing}", file=sys.stderr)
        return 3
    print(f"OK {prop.id}: {cases} cases, {evals} evaluations, {len(sigs)} distinct situations, {time.time()-begin:.1f} s")
    return 0


def main():
    args = sys.argv[1:]
    if args[0] == "worker":
        load()
        worker(PROPS[args[1]], int(args[2]), int(args[3]), int(args[4]), int(args[5]), args[6], args[7], args[8])
    elif args[0] == "check":
        load()
        sys.exit(check(PROPS[args[1]], args[2], int(os.environ.get("VERIF_SEED", "1"))))
    elif args[0] == "replay":
        with open(args[1]) as f:
            rep = json.load(f)
        load()
        directory = tempfile.mkdtemp(prefix="pyreplay-")
        os.chdir(directory)
        tempfile.tempdir = directory
        t = run_case(PROPS[rep["property"]], rep["case"], rep["seed"], rep["tier"], directory, set())
        os.chdir("/")
        shutil.rmtree(directory, ignore_errors=True)
        for v in t.viols:
            print("VIOLATION property=%s replay=%s\n  %s" % (rep["property"], args[1], v["msg"]))
        sys.exit(1 if t.viols else 0)


if __name__ == "__main__":
    main()
