"""Sub-checks, worker loop and replay."""
import hashlib
import importlib
import json
import os
import time
import traceback
import warnings

SHARDS = 8
SHRINK_S = float(os.environ.get("VERIF_SHRINK_S", 25.0))  # time limit for shrinking one failure


class Sub:
    """
    One sub-check: `strategy` generates cases (JSON documents), `func(case)` raises
    Violation if the property is broken and returns True for non-trivial cases.
    """

    def __init__(self, name, strategy, func, quick, thorough=None, examples=(), rule=""):
        self.name, self.strategy, self.func = name, strategy, func
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.examples = list(examples)
        self.rule = rule


def module(prop):
    """The module of a property (with the cases of repaired defects as examples)."""
    mod = importlib.import_module(f"rtcheck.{prop.lower()}")
    with open(os.path.join(os.path.dirname(__file__), "regress.json")) as file:
        docs = [d for d in json.load(file) if d["property"] == prop]
    for sub in mod.SUBS:
        sub.examples += [d["case"] for d in docs if d["sub"] == sub.name and d["case"] not in sub.examples]
    return mod


def _dumps(case):
    return json.dumps(case, sort_keys=True)


def seed_for(*parts):
    h = hashlib.sha256("/".join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:6], "big")


def run_case(sub, case):
    from .sut import Violation

    case = json.loads(_dumps(case))  # what a replay file would provide
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return bool(sub.func(case))
        except (Violation, KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except Exception as ex:
            # results that can not be processed are no valid results
            if type(ex).__module__.startswith("hypothesis"):
                raise
            tb = traceback.extract_tb(ex.__traceback__)[-1]
            raise Violation(
                f"the result can not be processed: {type(ex).__name__}: {str(ex)[:300]} "
                f"(at {os.path.basename(tb.filename)}:{tb.lineno})"
            ) from ex


def run_worker(prop, tier, shard, vseed, cap_s):
    """Run one shard of all sub-checks of a property."""
    from hypothesis import HealthCheck, Phase, given, seed, settings

    from .sut import Violation

    t_start = time.time()
    mod = module(prop)
    result = {"subs": {}, "violations": [], "capped": False, "error": None}
    result["rule"] = mod.RULE

    for sub in mod.SUBS:
        total = sub.quick if tier == "quick" else sub.thorough
        n = total // SHARDS + (1 if shard < total % SHARDS else 0)
        st = {"n": 0, "nontrivial": set(), "samples": []}
        best = {}
        t_fail = [None]
        t_sub = time.time()

        def one(case):
            if time.time() - t_start > cap_s:
                result["capped"] = True
                return
            if t_fail[0] is not None and time.time() - t_fail[0] > SHRINK_S:
                return
            if t_fail[0] is None:
                st["n"] += 1
            try:
                nt = run_case(sub, case)
            except Violation as ex:
                d = _dumps(case)
                t_fail[0] = t_fail[0] or time.time()
                if not best or len(d) <= len(best["case"]):
                    best.update(case=d, message=str(ex))
                raise
            if nt and t_fail[0] is None:
                d = _dumps(case)
                st["nontrivial"].add(hashlib.sha1(d.encode()).hexdigest()[:12])
                if len(st["samples"]) < 2:
                    st["samples"].append(json.loads(d))

        try:
            for i, ex in enumerate(sub.examples):
                if i % SHARDS == shard:
                    one(ex)
            if n > 0:
                run = settings(
                    max_examples=n,
                    database=None,
                    deadline=None,
                    report_multiple_bugs=False,
                    suppress_health_check=list(HealthCheck),
                    phases=[Phase.generate, Phase.shrink],
                    print_blob=False,
                )(seed(seed_for(vseed, prop, sub.name, shard))(given(sub.strategy)(one)))
                run()
        except Violation:
            pass
        except BaseException:
            if not best:
                result["error"] = f"{sub.name}: " + traceback.format_exc()[-3000:]
        if best:
            result["violations"].append(
                {
                    "sub": sub.name,
                    "case": json.loads(best["case"]),
                    "message": best["message"],
                }
            )
        st["nontrivial"] = sorted(st["nontrivial"])
        st["wall"] = round(time.time() - t_sub, 2)
        result["subs"][sub.name] = st
        if best or result["error"]:
            break
    return result


def replay(prop, path):
    from .sut import Violation

    doc = json.load(open(path))
    sub = {s.name: s for s in module(prop).SUBS}[doc["sub"]]
    try:
        run_case(sub, doc["case"])
    except Violation as ex:
        return str(ex)
    return None
