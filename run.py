#!/usr/bin/env python3
"""Entry point of every check:  python3 run.py <property> [quick|thorough]   (VERIF_SEED, VERIF_TIER)

Builds the library from /repo's current working tree, runs the campaigns of the property, writes
evidence/<property>.json, and exits 0 (held), 1 (VIOLATION line printed) or 2 (no answer).
`python3 run.py --replay replay/<file>` re-runs one recorded failure.
"""
import hashlib
import json
import os
import struct
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build  # noqa: E402

NCPU = int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4

CPP = "C++ graph fuzzer"
PY = "Python API fuzzer"

# property -> campaigns: (engine, mode, share of the workers)
CAMPAIGNS = {
    "C01": [("cpp", "C01", 8)],
    "C02": [("cpp", "C02", 8)],
    "C03": [("cpp", "C03", 8)],
    "C04": [("cpp", "C04", 8)],
    "C05": [("cpp", "C05", 8)],
    "C06": [("cpp", "C06", 8)],
    "C07": [("cpp", "C07", 8)],
    "C08": [("py", "C08", 8)],
    "C09": [("py", "C09", 8)],
    "C10": [("cpp", "C10", 4), ("py", "C10", 4)],
    "C11": [("py", "C11", 8)],
    "C12": [("py", "C12", 8)],
    "C13": [("py", "C13", 8)],
    "C14": [("cpp", "C14", 3), ("py", "C14", 5)],
    "C15": [("cpp", "C15", 4), ("py", "C15", 4)],
    "C16": [("py", "C16", 8)],
    "C17": [("py", "C17", 8)],
    "C18": [("py", "C18/asan", 8)],
    "C19": [("py", "C19/asan", 8)],
    "C20": [("py", "C20", 8)],
}

GRAPH_RULE = ("a case is a random graph (1-4 decisions of every kind, constants, up to ~20 derived nodes of "
              "every node type, fixed and state-dependent shapes) plus a history of 1-14 steps of moves, "
              "propagate/propose, commit/revert on one or two states; non-trivial: ")
MODEL_RULE = ("a case is a random model built through the Python interface (decisions of every kind, constants, derived "
              "symbols of the classes the property is about, fixed and state-dependent shapes) and a random history of "
              "calls on it; non-trivial: ")
RULES = {
    "C01": GRAPH_RULE + "at least 2 derived nodes, 2 steps, and a step that changed a derived value",
    "C02": GRAPH_RULE + "at least 2 derived nodes, 2 steps, and a step that changed a derived value",
    "C03": GRAPH_RULE + "at least 2 derived nodes, 2 steps, and a step that changed a derived value",
    "C04": GRAPH_RULE + "at least 2 derived nodes, 2 steps, and a step that changed a derived value",
    "C05": GRAPH_RULE + "at least 2 derived nodes, 2 steps, and a step that changed a derived value",
    "C06": GRAPH_RULE + "at least 2 steps",
    "C07": ("a case is a random iterator history (strided/masked/contiguous), a sliced view, a set of slices, "
            "shapes to broadcast, a shape whose indices are converted, or an update list to merge; non-trivial: "
            "more than one element/update is involved and the layout is not plain contiguous"),
    "C08": MODEL_RULE + "at least 2 derived symbols",
    "C09": MODEL_RULE + "at least 1 derived symbol",
    "C11": MODEL_RULE + "the history sets, refuses or resets at least 3 states",
    "C12": MODEL_RULE + "at least 2 derived symbols are saved and loaded",
    "C13": MODEL_RULE + "the history has at least 4 operations",
    "C14": MODEL_RULE + "at least 2 derived symbols; or a C++ graph that grows and is pruned 1-4 times, of which at least 2 "
           "derived nodes were made and one was removed",
    "C15": MODEL_RULE + "an objective or a constraint was accepted (in the Python model or the C++ graph)",
    "C16": MODEL_RULE + "at least 3 symbols are compared",
    "C17": ("a case is a random problem instance for one of the generators or a random constrained quadratic model, in a "
            "random input form (lists, NumPy arrays of several types and layouts, read-only arrays), with some random "
            "assignments, or an invalid instance; non-trivial: the instance has at least 4 numbers, or it is a "
            "constrained quadratic model"),
    "C18": ("a case is a random model with random states and 1-8 invalid requests on it (58 kinds times random symbols, "
            "numbers and shapes), or 1-4 damaged model or states files (cut, bytes changed, entries changed, removed, "
            "swapped, with odd numbers or arrays); non-trivial: at least 2 requests, or a model of at least 3 symbols"),
    "C19": ("a case is one or two random models and a random history of keeping, dropping, collecting, growing, pruning, "
            "locking and reusing their symbols, arrays, iterators, states and files; non-trivial: at least 5 operations"),
    "C20": ("a case is a recipe of 1 to 40000 operations on 1-3 decisions (chains, repeatedly shared operands, grids, fans), "
            "built as a model and evaluated, reassigned, compared, constrained, pruned, saved and loaded; non-trivial: at "
            "least 20 operations"),
    "C10": GRAPH_RULE + "the graph contains a quadratic model, 2 steps, and a step changed a derived value",
}
ASSUME = {
    "cpp": ["values are compared exactly unless the node is downstream of an inexact operation "
            "(then within 1e-9 relative)", "the independent reference in cpp/graphgen.hpp states NumPy's definitions"],
    "py": ["NumPy is the reference for values", "values are compared within 1e-9 relative"],
}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("known", [])


# Cases per worker of the quick tier (the run is a function of the tree and the seed); the time limit
# only matters on a machine that is much slower. The thorough tier runs for a fixed time instead.
QUICK_CASES = {"C01": 20000, "C02": 25000, "C03": 26000, "C04": 28000, "C05": 15000, "C06": 26000, "C07": 300000,
               "C10": 36000, "py/C10": 11000, "C08": 20000, "C09": 18000, "C11": 11000, "C12": 4000, "C13": 16000,
               "C14": 3600, "C15": 16000, "C16": 8000,
               "cpp/C14": 25000, "cpp/C15": 18000, "C17": 25000, "C18/asan": 3000, "C19/asan": 1500,
               "C20": 1500}


def budget(engine, mode, tier):
    if "VERIF_SECONDS" in os.environ:
        return float(os.environ["VERIF_SECONDS"]), 10 ** 12
    if tier == "thorough":
        return 600.0, 10 ** 12
    return 240.0, QUICK_CASES.get(f"{engine}/{mode}") or QUICK_CASES[mode]


def main():
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        return replay(args[1])
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    out = build.scratch(f"out-{prop}-{os.getpid()}")
    try:
        return run(prop, tier, seed, out, t0)
    finally:
        build.cleanup(out)


def command(engine, mode, art):
    if engine == "cpp":
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1")
        return [art["cpp"], mode], env
    env = dict(os.environ, **art["py_env"])
    return art["py_cmd"] + [mode], env


def run(prop, tier, seed, out, t0):
    camps = CAMPAIGNS[prop]
    art = {}
    try:
        if any(c[0] == "cpp" for c in camps):
            art["cpp"] = build.cpp()
        if any(c[0] == "py" for c in camps):
            art.update(build.py(asan=any(c[0] == "py" and c[1].endswith("/asan") for c in camps)))
    except build.BuildError as e:
        log(str(e)[-4000:])
        log("cannot build the checked tree: no answer")
        return 2
    tb = time.time()
    total = sum(c[2] for c in camps)
    procs = []
    w = 0
    for engine, mode, share in camps:
        n = max(1, round(NCPU * share / total))
        for i in range(n):
            f = os.path.join(out, f"w{w}.json")
            cmd, env = command(engine, mode, art)
            secs, cases = budget(engine, mode, tier)
            cmd = cmd + ["--seed", str(seed * 1000 + w), "--seconds", str(secs), "--cases", str(cases), "--out", f,
                         "--samples", "2" if i == 0 else "0", "--shrink", "40"]
            procs.append((engine, mode, f, subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL,
                                                           stderr=open(f + ".err", "wb"), cwd=out)))
            w += 1
    deadline = time.time() + secs + 350
    for engine, mode, f, p in procs:
        try:
            p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
    agg = dict(cases=0, discards=0, steps=0, checks=0, refused=0)
    hashes = set()
    feat, samples, failures, broken = {}, [], [], []
    per = {}
    for engine, mode, f, p in procs:
        if not os.path.exists(f):
            broken.append((mode, p.returncode, open(f + ".err", errors="replace").read()[-2000:]))
            continue
        d = json.load(open(f, errors="replace"))
        for k in agg:
            agg[k] += d.get(k, 0)
        per[mode] = per.get(mode, 0) + d.get("cases", 0)
        samples += [s if isinstance(s, str) else json.dumps(s) for s in d.get("samples", [])]
        for x in d.get("failures", []):
            failures.append(dict(x, engine=engine, mode=mode))
        if os.path.exists(f + ".hash"):
            b = open(f + ".hash", "rb").read()
            hashes.update((h, mode) for h in struct.unpack(f"<{len(b) // 8}Q", b[: len(b) // 8 * 8]))
        if os.path.exists(f + ".feat"):
            for line in open(f + ".feat"):
                a, _, b = line.rstrip("\n").partition("\t")
                feat[a] = feat.get(a, 0) + int(b)
    for b in broken:
        log("worker gave no result:", b)
    if broken and not failures:
        log("no answer")
        return 2
    real, known = [], {}
    for x in failures:
        if x["confirmed"] < 3:
            log("not reproducible, ignored:", x["tag"], x["msg"][:500])
            continue
        k = next((k for k in load_known() if k["property"] == prop and k["tag"] == x["tag"]
                  and k.get("contains", "") in x["text"] + x["msg"]), None)
        if k:
            known[k["what"]] = k
        else:
            real.append(x)
    for k in load_known():
        if k["property"] == prop:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": agg["cases"], "distinct_nontrivial": len(hashes), "rule": RULES[prop],
            "samples": samples[:6] or [x["text"][:1800] for x in real[:2]],
            "steps": agg["steps"], "oracle_evaluations": agg["checks"], "discarded": agg["discards"],
            "refused_constructions": agg["refused"], "classes": dict(sorted(feat.items())), "cases_per_mode": per,
            "workers": len(procs), "build_s": round(tb - t0, 1),
        },
        "assumptions": sorted({a for c in camps for a in ASSUME[c[0]]}),
        "wall_s": round(time.time() - t0, 1), "violations": len(real),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as fh:
        json.dump(ev, fh, indent=1)
    os.replace(p + ".tmp", p)
    log(f"{prop} {tier}: {agg['cases']} cases, {len(hashes)} distinct non-trivial, {agg['checks']} oracle "
        f"evaluations, {ev['wall_s']} s")
    if not real:
        if agg["cases"] == 0 or not hashes:
            log("nothing was explored: no answer")
            return 2
        return 0
    real.sort(key=lambda x: len(x["choices"]))
    seen = set()
    for x in real:
        if x["tag"] in seen:
            continue
        seen.add(x["tag"])
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
        h = hashlib.sha256(json.dumps(x["choices"]).encode()).hexdigest()[:8]
        tag = "".join(c if c.isalnum() else "-" for c in x["tag"])[:50]
        path = os.path.join(HERE, "replay", f"{prop}-{tag}-{h}.txt")
        with open(path, "w") as fh:
            fh.write(f"property: {prop}\nengine: {x['engine']}\nmode: {x['mode']}\ntag: {x['tag']}\n"
                     f"choices: {' '.join(map(str, x['choices']))}\n\n{x['msg']}\n\n{x['text']}\n")
        log(f"[{x['tag']}] {x['msg'][:1500]}")
        print(f"VIOLATION property={prop} replay={path}", flush=True)
    return 1


def replay(path):
    head = {}
    for line in open(path):
        k, _, v = line.partition(": ")
        head.setdefault(k, v.strip())
    art = {}
    if head["engine"] == "cpp":
        art["cpp"] = build.cpp()
    else:
        art.update(build.py(asan=head["mode"].endswith("/asan")))
    cmd, env = command(head["engine"], head["mode"], art)
    r = subprocess.run(cmd + ["--replay", os.path.abspath(path)], env=env)
    return r.returncode


if __name__ == "__main__":
    sys.exit(main())
