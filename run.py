#!/usr/bin/env python3
"""Runs the checks:  run.py <ID> [--tier quick|thorough]   |   run.py --replay FILE   |   run.py --setup

Exit 0: held on everything explored; exit 1 and a VIOLATION line: broken.
"""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import build  # noqa: E402
import specs  # noqa: E402

VT = "/opt/veriftools/pyvenv/bin/python3"


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(obj, f, indent=1)
        f.write("\n")


def save_replay(pid, data):
    body = json.dumps(data, indent=1, sort_keys=True)
    path = os.path.join(HERE, "replays", f"{pid}-{hashlib.sha256(body.encode()).hexdigest()[:12]}.json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(body + "\n")
    return path


def part_of(pid, key):
    part = [dict(p) for p in specs.SPECS[pid]["parts"] if part_key(p) == key][0]
    part["key"] = key
    return part


def part_key(p):
    return p.get("key") or p.get("source") or p.get("script")


def known_findings(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == pid]


def run_cpp(part, tier, seed, tmp):
    """builds a program and runs its properties; yields result dicts"""
    exe = build.build_props(part["source"], model=part["model"]() if part.get("model") else None, san=part.get("san", "asan"),
                            json=part.get("json", False), extra_flags=part.get("flags", ()), defines=part.get("defines", ()), sio=part.get("sio", False))
    for name, cases in part["props"].items():
        n = cases[0] if tier == "quick" else cases[1]
        out = os.path.join(tmp, name + ".json")
        wd = os.path.join(tmp, "w_" + name)
        os.makedirs(wd, exist_ok=True)
        cmd = [exe, "--prop", name, "--seed", str(seed), "--cases", str(n), "--out", out, "--tmp", wd,
               "--time", str(part.get("time", (200, 1500))[0 if tier == "quick" else 1]), "--shrink-time", "60"]
        if part.get("flaky"):
            cmd.append("--flaky")
        cmd += part.get("args", [])
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=wd)
        if r.returncode not in (0, 1) or not os.path.exists(out):
            raise RuntimeError(f"{name}: the property program ended with {r.returncode}: {r.stdout[-3000:]}")
        res = json.load(open(out))
        res["part"] = part["key"]
        yield res


def run_py(part, tier, seed, tmp):
    out = os.path.join(tmp, part["key"].replace("/", "_") + ".json")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", VERIF_SEED=str(seed), VERIF_TIER=tier, TMPDIR=tmp)
    env["PYTHONPATH"] = os.path.join(HERE, "lib") + ":" + os.path.join(HERE, "py")
    r = subprocess.run([VT, os.path.join(HERE, "py", part["script"]), "--out", out, "--tier", tier, "--seed", str(seed)] + part.get("args", []),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=tmp, env=env)
    if r.returncode not in (0, 1) or not os.path.exists(out):
        raise RuntimeError(f"{part['script']}: ended with {r.returncode}: {r.stdout[-4000:]}")
    for res in json.load(open(out)):
        res["part"] = part["key"]
        yield res


def check(pid, tier, seed):
    spec = specs.SPECS[pid]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    results, violations, notes = [], [], []
    try:
        for part in spec["parts"]:
            part = dict(part)
            part["key"] = part_key(part)
            try:
                for res in (run_py if "script" in part else run_cpp)(part, tier, seed, tmp):
                    results.append(res)
                    if res.get("note"):
                        notes.append(f"{res['prop']}: {res['note']}")
                    if res.get("failure"):
                        f = dict(res["failure"], property=pid, part=part["key"], tier=tier, seed=seed)
                        violations.append((save_replay(pid, f), f.get("message", "")))
            except build.BuildError as e:
                if not build.toolchain_works():
                    raise
                if e.what == "harness" and pid != "G04":
                    # code that compiles for users of the documented API on the original tree
                    msg = "a program using the documented API does not compile or link any more"
                else:
                    msg = f"{e.what} code does not build"
                violations.append((save_replay(pid, {"kind": "build", "property": pid, "part": part["key"], "message": msg, "log": e.log[:20000]}),
                                   msg + ": " + e.log[:1500]))
        findings = []
        for k in known_findings(pid):
            if "probe" not in k:
                continue
            pr = k["probe"]
            part = part_of(pid, pr["part"])
            if "script" in part:
                part["args"] = list(part.get("args", [])) + ["--probe", pr["name"]]
                rs = list(run_py(part, tier, seed, tmp))
            else:
                part["props"] = {pr["name"]: (1, 1)}
                rs = list(run_cpp(part, tier, seed, tmp))
            if any(r.get("failure") for r in rs):
                findings.append(k)
                print(f"KNOWN-FINDING: property={pid} {k['what']}")
        evals = sum(r["evaluations"] for r in results)
        nontriv = sum(r["distinct_nontrivial"] for r in results)
        samples = []
        for r in results:
            for s in r.get("samples", [])[:3]:
                samples.append(f"[{r['prop']}] {s}"[:1500])
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
            "coverage": {
                "evaluations": evals, "distinct_nontrivial": nontriv, "rule": spec["rule"],
                "samples": samples[:12] or ["(no case was generated)"],
                "per_property": {r["prop"]: {"evaluations": r["evaluations"], "distinct_nontrivial": r["distinct_nontrivial"],
                                             "labels": r.get("labels", {}), "wall_s": r.get("wall_s")} for r in results},
                "known_findings_seen": [k["what"] for k in findings],
                "notes": notes,
            },
            "assumptions": spec.get("assumptions", []),
            "wall_s": round(time.time() - t0, 2),
            "violations": len(violations),
        }
        write_json(os.path.join(HERE, "evidence", f"{pid}.json"), ev)
        for r in results:
            print(f"{r['prop']}: {r['evaluations']} cases, {r['distinct_nontrivial']} distinct non-trivial, {r.get('wall_s', 0):.1f} s"
                  + (f"  NOTE {r['note'][:300]}" if r.get("note") else ""))
        for path, msg in violations:
            print(msg[:3000])
            print(f"VIOLATION property={pid} replay={path}")
        return 1 if violations else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(path):
    d = json.load(open(path))
    pid = d["property"]
    part = part_of(pid, d["part"])
    if d["kind"] == "build":
        try:
            build.build_props(part["source"], model=part["model"]() if part.get("model") else None, san=part.get("san", "asan"),
                              json=part.get("json", False), extra_flags=part.get("flags", ()), defines=part.get("defines", ()), sio=part.get("sio", False))
        except build.BuildError as e:
            print(e)
            return 1
        return 0
    if "script" in part:
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        env["PYTHONPATH"] = os.path.join(HERE, "lib") + ":" + os.path.join(HERE, "py")
        return subprocess.run([VT, os.path.join(HERE, "py", part["script"]), "--replay", os.path.abspath(path)] + part.get("args", []), env=env).returncode
    exe = build.build_props(part["source"], model=part["model"]() if part.get("model") else None, san=part.get("san", "asan"),
                            json=part.get("json", False), extra_flags=part.get("flags", ()), defines=part.get("defines", ()), sio=part.get("sio", False))
    tmp = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        if d["kind"] == "choices":
            cf = os.path.join(tmp, "choices")
            with open(cf, "w") as f:
                f.write(" ".join(map(str, d["choices"])))
            cmd = [exe, "--prop", d["prop"], "--choices", cf, "--size", str(d["size"]), "--index", str(d["index"]), "--tmp", tmp]
        else:
            cmd = [exe, "--prop", d["prop"], "--seed", str(d["seed"]), "--workers", str(d["workers"]), "--range", str(d["worker"]), str(d["upto"]),
                   "--tmp", tmp]
        if d.get("flaky"):
            cmd.append("--flaky")
        return subprocess.run(cmd, cwd=tmp).returncode
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def setup():
    # every check builds what it needs; this only shows that the tools are there
    return 0 if build.toolchain_works() else 1


def main():
    a = sys.argv[1:]
    if a[:1] == ["--replay"]:
        return replay(a[1])
    if a[:1] == ["--setup"]:
        return setup()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    return check(a[0], tier, seed)


if __name__ == "__main__":
    try:
        rc = main()
    except Exception as e:  # pylint: disable=broad-except
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
