#!/opt/venv/bin/python
"""
check.py <ID> [--tier quick|thorough] [--replay FILE]

exit 0: the property held on everything explored
exit 1: VIOLATION property=<ID> replay=<path>
exit 2: error of the machinery
"""
import argparse
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from rtcheck import env as E  # noqa: E402
from rtcheck.core import SHARDS  # noqa: E402

CAP = {"quick": 420.0, "thorough": 3 * 3600.0}


def known(prop):
    """Recorded (unrepaired) findings: lines 'finding: property=<id> sub=<sub> key=<case hash> <text>'."""
    ret = {}
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) sub=(\S+) key=(\S+) (.*)", line)
            if m and m[1] == prop:
                ret[(m[2], m[3])] = m[4].strip()
    return ret


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]


def worker_main(args):
    E.setup()
    from rtcheck import core

    res = core.run_worker(args.prop, args.tier, args.worker, args.seed, CAP[args.tier])
    with open(args.out, "w") as f:
        json.dump(res, f)


def selftest():
    """Import rt1_model, Hypothesis and all check modules in the interpreter used by the checks."""
    scratch = tempfile.mkdtemp(prefix="rtcheck-")
    code = (
        f"import sys; sys.path.insert(0, {HERE!r}); sys.dont_write_bytecode = True\n"
        "from rtcheck import env, core; env.setup()\n"
        "print(sum(len(core.module(f'C{i:02d}').SUBS) for i in range(1, 24)), 'sub-checks')"
    )
    try:
        return subprocess.run([E.PYTHON, "-c", code], env=E.base_env(scratch), cwd=scratch).returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true", help="check that everything can be imported")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED") or "1")
    ap.add_argument("--replay")
    ap.add_argument("--worker", type=int)
    ap.add_argument("--out")
    args = ap.parse_args()
    if args.selftest:
        return selftest()
    if not args.prop:
        ap.error("a property is required")
    if args.worker is not None:
        return worker_main(args)

    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="rtcheck-")
    try:
        if args.replay:
            if os.environ.get("RTCHECK_CHILD") != "1":
                env = E.base_env(scratch)
                env["RTCHECK_CHILD"] = "1"
                return subprocess.run(
                    [E.PYTHON, __file__, args.prop, "--replay", args.replay], env=env
                ).returncode
            E.setup()
            from rtcheck import core

            msg = core.replay(args.prop, args.replay)
            if msg:
                print(msg)
                print(f"VIOLATION property={args.prop} replay={args.replay}")
                return 1
            print("the recorded case holds")
            return 0
        return run(args, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(args, scratch, t0):
    env = E.base_env(scratch)
    procs = []
    for i in range(SHARDS):
        out = os.path.join(scratch, f"w{i}.json")
        log = open(os.path.join(scratch, f"w{i}.log"), "w")
        cmd = [E.PYTHON, os.path.abspath(__file__), args.prop, "--tier", args.tier]
        cmd += ["--seed", args.seed, "--worker", str(i), "--out", out]
        wd = os.path.join(scratch, f"cwd{i}")
        os.mkdir(wd)
        p = subprocess.Popen(
            cmd, env=env, stdout=log, stderr=log, stdin=subprocess.DEVNULL, cwd=wd
        )
        procs.append((p, out, log.name))

    results, errors = [], []
    pending = list(procs)
    deadline = None
    while pending:
        time.sleep(0.05)
        for item in list(pending):
            p, out, log = item
            if p.poll() is None:
                continue
            pending.remove(item)
            if p.returncode == 0 and os.path.exists(out):
                r = json.load(open(out))
                results.append(r)
                if r["error"]:
                    errors.append(r["error"])
                if (r["violations"] or r["error"]) and deadline is None:
                    deadline = time.time() + 20
            else:
                errors.append(f"worker ended with {p.returncode}: " + open(log).read()[-2000:])
                deadline = deadline or time.time() + 20
        if deadline and time.time() > deadline:
            for p, _, _ in pending:
                p.kill()
                p.wait()
            break

    kn = known(args.prop)
    violations, seen_known = [], set()
    for r in results:
        for v in r["violations"]:
            k = (v["sub"], case_key(v["case"]))
            if k in kn:
                seen_known.add(k)
            else:
                violations.append(v)
    violations.sort(key=lambda v: len(json.dumps(v["case"])))

    replay = None
    if violations:
        v = violations[0]
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        replay = os.path.join(HERE, "replays", f"{args.prop}-{v['sub']}-{case_key(v['case'])}.json")
        with open(replay, "w") as f:
            json.dump(dict(property=args.prop, seed=args.seed, **v), f, indent=1)
            f.write("\n")

    write_evidence(args, results, violations, replay, time.time() - t0)

    for k in kn:
        # listed findings are re-evaluated by their example in the sub-check
        print(f"KNOWN-FINDING: property={args.prop} {kn[k]}")
    if violations:
        print(f"[{violations[0]['sub']}] {violations[0]['message']}")
        print(json.dumps(violations[0]["case"])[:2000])
        print(f"VIOLATION property={args.prop} replay={replay}")
        return 1
    if errors or len(results) != SHARDS:
        print("ERROR of the machinery:\n" + "\n".join(errors), file=sys.stderr)
        return 2
    n = sum(s["n"] for r in results for s in r["subs"].values())
    print(f"OK property={args.prop} tier={args.tier} cases={n} wall={time.time() - t0:.1f}s")
    return 0


def write_evidence(args, results, violations, replay, wall):
    subs = {}
    for r in results:
        for name, s in r["subs"].items():
            d = subs.setdefault(name, {"n": 0, "nt": set(), "samples": [], "wall": 0.0})
            d["n"] += s["n"]
            d["nt"].update(s["nontrivial"])
            d["samples"] += s["samples"]
            d["wall"] = max(d["wall"], s["wall"])
    samples = [
        {"sub": k, "case": d["samples"][i]}
        for i in range(2)
        for k, d in subs.items()
        if i < len(d["samples"])
    ][:12]
    doc = {
        "property": args.prop,
        "tier": args.tier,
        "seed": int(args.seed) if args.seed.lstrip("-").isdigit() else 0,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(d["n"] for d in subs.values()),
            "distinct_nontrivial": sum(len(d["nt"]) for d in subs.values()),
            "rule": next((r["rule"] for r in results if r.get("rule")), "-"),
            "samples": samples,
            "per_subcheck": {
                k: {
                    "cases": d["n"],
                    "distinct_nontrivial": len(d["nt"]),
                    "wall_s_max_shard": d["wall"],
                }
                for k, d in subs.items()
            },
            "time_cap_reached": any(r["capped"] for r in results),
            "shards": SHARDS,
        },
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    if replay:
        doc["replay"] = replay
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{args.prop}.json"), "w") as f:
        json.dump(doc, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
