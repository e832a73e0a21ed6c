"""Property-based testing of podio's Python code with Hypothesis.

A property is a strategy of JSON-able data and a check function check(data, rec) that raises AssertionError (or anything
else) when the property is broken. Hypothesis generates and shrinks; the shrunk data is the replay.
"""
import argparse
import hashlib
import io
import json
import multiprocessing
import os
import shutil
import sys
import tempfile
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
if "/usr/lib/python3/dist-packages" not in sys.path:
    sys.path.append("/usr/lib/python3/dist-packages")  # jinja2 is there
sys.path.insert(0, os.path.join(REPO, "python"))

SCRATCH = tempfile.mkdtemp(prefix="verif-py-")
os.environ["TMPDIR"] = SCRATCH
tempfile.tempdir = SCRATCH

import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, given, settings  # noqa: E402
from hypothesis import strategies as st  # noqa: E402,F401


class Rec:
    """what one case tells about itself"""

    def __init__(self):
        self.nt = False
        self.labels = []

    def nontrivial(self):
        self.nt = True

    def label(self, x):
        self.labels.append(x)


class Prop:
    def __init__(self, name, strategy, check, cases, workers=8, probe=False, serial=False, costly=False):
        self.name, self.strategy, self.check, self.cases, self.workers, self.probe = name, strategy, check, cases, workers, probe
        self.costly = costly  # few cases: the simplest one is taken once only
        if serial:
            self.workers = 1


def digest(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True).encode()).hexdigest()[:16]


def message(e):
    if isinstance(e, AssertionError):
        return str(e)[:3000] or "assertion failed:\n" + traceback.format_exc()[-1500:]
    return "unexpected " + "".join(traceback.format_exception(type(e), e, e.__traceback__))[-2500:]


def worker(prop, cases, seed, deadline, conn, first=True):
    res = {"evaluations": 0, "nontrivial": set(), "labels": {}, "samples": [], "failure": None, "note": ""}
    last = {}
    skip = [prop.costly and not first]

    def body(data):
        if skip[0]:
            skip[0] = False
            return
        if time.time() > (last["until"] if last else deadline):
            return
        rec = Rec()
        if not last:
            res["evaluations"] += 1
        try:
            prop.check(data, rec)
        except hypothesis.errors.UnsatisfiedAssumption:
            raise
        except Exception as e:  # pylint: disable=broad-except
            if not last or len(json.dumps(data)) <= len(json.dumps(last["data"])):
                last.update(data=data, message=message(e))
            last.setdefault("first_message", message(e))
            last.setdefault("until", time.time() + 25)
            raise
        if last:
            return
        for lb in rec.labels:
            res["labels"][lb] = res["labels"].get(lb, 0) + 1
        if rec.nt:
            d = digest(data)
            if d not in res["nontrivial"]:
                res["nontrivial"].add(d)
                if len(res["samples"]) < 3:
                    res["samples"].append(json.dumps(data)[:700])

    try:
        t = given(prop.strategy() if callable(prop.strategy) else prop.strategy)(body)
        t = settings(max_examples=cases + skip[0], database=None, deadline=None, suppress_health_check=list(HealthCheck),
                     phases=[Phase.generate, Phase.shrink], print_blob=False, report_multiple_bugs=False)(t)
        t = hypothesis.seed(seed)(t)
        t()
    except hypothesis.errors.Unsatisfiable as e:
        res["note"] = f"{e}"
    except BaseException as e:  # pylint: disable=broad-except
        if not last:
            res["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    if last:
        last.pop("until", None)
        res["failure"] = dict(last, kind="data", prop=prop.name)
    res["nontrivial"] = list(res["nontrivial"])
    conn.send(res)
    conn.close()


def run_prop(prop, tier, seed):
    t0 = time.time()
    cases = prop.cases[0 if tier == "quick" else 1]
    n = max(1, min(prop.workers, cases))
    deadline = t0 + (150 if tier == "quick" else 1200)
    ps = []
    ctx = multiprocessing.get_context("fork")
    for w in range(n):
        a, b = ctx.Pipe(False)
        k = cases // n + (1 if w < cases % n else 0)
        p = ctx.Process(target=worker, args=(prop, k, seed * 1000003 + w, deadline, b, w == 0))
        p.start()
        b.close()
        ps.append((p, a))
    out = {"prop": prop.name, "evaluations": 0, "labels": {}, "samples": [], "failure": None, "note": ""}
    nt = set()
    errors = []
    for p, a in ps:
        try:
            r = a.recv()
        except EOFError:
            p.join()
            errors.append(f"a worker of {prop.name} ended with {p.exitcode}")
            continue
        p.join()
        if r.get("error"):
            errors.append(r["error"])
        out["evaluations"] += r["evaluations"]
        nt.update(r["nontrivial"])
        for k, v in r["labels"].items():
            out["labels"][k] = out["labels"].get(k, 0) + v
        out["samples"] += r["samples"][:2] if len(out["samples"]) < 6 else []
        out["note"] = out["note"] or r["note"]
        f = r["failure"]
        if f and (not out["failure"] or len(json.dumps(f["data"])) < len(json.dumps(out["failure"]["data"]))):
            out["failure"] = f
    if errors and not out["failure"]:
        raise RuntimeError("\n".join(errors))
    out["nontrivial"] = len(nt)
    out["distinct_nontrivial"] = len(nt)
    out["wall_s"] = round(time.time() - t0, 2)
    return out


def main(props):
    ap = argparse.ArgumentParser()
    ap.add_argument("--out")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--probe")
    ap.add_argument("--replay")
    ap.add_argument("--only", action="append")
    ap.add_argument("--cases", type=int)
    a = ap.parse_args()
    try:
        by = {p.name: p for p in props}
        if a.replay:
            d = json.load(open(a.replay))
            try:
                by[d["prop"]].check(d["data"], Rec())
            except Exception as e:  # pylint: disable=broad-except
                print(message(e))
                return 1
            print("holds")
            return 0
        if a.probe:
            sel = [by[a.probe]]
        elif a.only:
            sel = [by[n] for n in a.only]
        else:
            sel = [p for p in props if not p.probe]
        res = []
        for p in sel:
            if a.cases:
                p.cases = (a.cases, a.cases)
            res.append(run_prop(p, a.tier, a.seed))
            if not a.out:
                r = res[-1]
                print(r["prop"], r["evaluations"], "cases", r["distinct_nontrivial"], "nontrivial", r["wall_s"], "s", r["note"], r["labels"])
                for s in r["samples"][:2]:
                    print("   sample", s[:400])
                if r["failure"]:
                    print("FAILURE", r["failure"]["message"], "\n  data", json.dumps(r["failure"]["data"]))
        if a.out:
            with open(a.out, "w") as f:
                json.dump(res, f)
        return 1 if any(r["failure"] for r in res) else 0
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)


def run_tool(script, args, cwd=None, env=None, inp=None):
    """runs one of podio's Python programs as a user does, in a forked child that already has the interpreter's
    modules loaded; returns (exit code, output)"""
    fd, path = tempfile.mkstemp(prefix="out")
    pid = os.fork()
    if pid == 0:
        rc = 70
        try:
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            sys.stdout = open(1, "w", closefd=False)
            if inp is not None:
                sys.stdin = io.StringIO(inp)
            sys.stderr = open(2, "w", closefd=False)
            if cwd:
                os.chdir(cwd)
            for k, v in (env or {}).items():
                os.environ[k] = v
            sys.argv = [script] + [str(x) for x in args]
            # the program's own directory comes first, as for a real run
            sys.path.insert(0, os.path.dirname(os.path.abspath(script)))
            import runpy
            rc = 0
            try:
                runpy.run_path(script, run_name="__main__")
            except SystemExit as e:
                if isinstance(e.code, str):
                    print(e.code, file=sys.stderr)
                    rc = 1
                else:
                    rc = e.code or 0
            except BaseException:  # pylint: disable=broad-except
                traceback.print_exc()
                rc = 1
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(rc)
    os.close(fd)
    _, status = os.waitpid(pid, 0)
    with open(path, errors="replace") as f:
        text = f.read()
    os.unlink(path)
    return os.waitstatus_to_exitcode(status), text
