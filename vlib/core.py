"""Runner of the generated checks: facets, shards, shrinking, replay, evidence.

A property module (``props/<ID>.py``) defines ``PROPERTY``, ``RULE``, ``ASSUMPTIONS`` and
``FACETS``, a list of ``Facet``.  A facet is one executable oracle over one generator:

* ``strategy()`` - Hypothesis strategy of plain JSON values (the *spec* of a case);
* ``make(spec)`` - builds the inputs, never calls wulfric.  ``None`` rejects the spec.
* ``check(x, spec)`` - runs wulfric and the oracle.  Returns a tag (str) classifying a
  non-trivial case, or ``None`` for a trivial one.  Raises ``Violation`` when the property
  is broken.  Any other exception raised here is a violation as well: all inputs are in the
  documented domain, and the outputs are consumed only by the oracle.

An exception of ``make`` or of the strategy is an error of the harness (exit 2).
"""
import concurrent.futures as cf
import hashlib
import importlib
import json
import math
import multiprocessing
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    pass


class HarnessError(Exception):
    pass


class _StopSearch(BaseException):
    pass


CASE_LIMIT = 60.0


class _Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise _Hang()


def fail(msg):
    raise Violation(msg)


class Facet:
    def __init__(self, name, strategy, check, make=None, quick=200, thorough=4000, shards=1,
                 thorough_shards=None, min_nontrivial=0.02, doc=""):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.make = make
        self.quick = quick
        self.thorough = thorough
        self.shards = shards
        self.thorough_shards = thorough_shards or max(shards, 8)
        self.min_nontrivial = min_nontrivial
        self.doc = doc


def canonical(spec):
    return json.dumps(spec, sort_keys=True, ensure_ascii=True, allow_nan=True)


def digest(spec):
    return hashlib.sha1(canonical(spec).encode()).hexdigest()[:16]


def evaluate(facet, spec):
    """(status, payload): 'rejected', 'trivial', 'ok' + tag, 'violation' + message,
    'harness' + traceback."""
    spec = json.loads(canonical(spec))  # the replay file carries exactly this
    try:
        x = facet.make(spec) if facet.make is not None else spec
    except Exception:
        return "harness", traceback.format_exc()
    if x is None:
        return "rejected", None
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT)
        try:
            tag = facet.check(x, spec)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except _Hang:
        return "violation", f"no result within {CASE_LIMIT} s (a case takes about 0.1 s)"
    except Violation as e:
        return "violation", str(e)
    except HarnessError:
        return "harness", traceback.format_exc()
    except MemoryError:
        raise
    except Exception as e:
        tb = traceback.format_exc().strip().splitlines()
        where = [l.strip() for l in tb if "/wulfric/" in l]
        origin = where[-1] if where else "(in the oracle, on the returned value)"
        return "violation", f"unexpected {type(e).__name__}: {str(e)[:300]} {origin}"
    if tag is None:
        return "trivial", None
    return "ok", str(tag)


def shard_seed(base, prop, facet, shard):
    h = hashlib.sha256(f"{base}/{prop}/{facet}/{shard}".encode()).digest()
    return int.from_bytes(h[:8], "big")


def run_shard(prop, facet_name, shard, n, base_seed, gen_cap, shrink_cap):
    """Runs in a worker process."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    try:
        # mutated copies of earlier cases repeat their choices: fewer space groups are reached
        from hypothesis.internal.conjecture.engine import ConjectureRunner
        ConjectureRunner.generate_mutations_from = lambda self, data: None
    except (ImportError, AttributeError):
        pass
    mod = importlib.import_module(f"props.{prop}")
    facet = next(f for f in mod.FACETS if f.name == facet_name)
    st = {
        "evaluations": 0, "rejected": 0, "trivial": 0, "tags": {}, "hashes": set(),
        "samples": [], "violation": None, "harness": None, "capped": False,
    }
    t0 = time.time()
    best = [None]  # (size, spec, message)
    t_fail = [None]

    def body(spec):
        status, payload = evaluate(facet, spec)
        st["evaluations"] += 1
        if status == "harness":
            st["harness"] = payload
            raise _StopSearch()
        if status == "violation":
            size = (len(canonical(spec)), canonical(spec))
            if best[0] is None or size < best[0][0]:
                best[0] = (size, spec, payload)
            if t_fail[0] is None:
                t_fail[0] = time.time()
            if time.time() - t_fail[0] > shrink_cap:
                raise _StopSearch()
            raise Violation(payload)
        if status == "rejected":
            st["rejected"] += 1
        elif status == "trivial":
            st["trivial"] += 1
        else:
            st["tags"][payload] = st["tags"].get(payload, 0) + 1
            h = digest(spec)
            if h not in st["hashes"]:
                st["hashes"].add(h)
                k = len(st["hashes"])
                if k in (3, 30) and len(st["samples"]) < 2:
                    st["samples"].append(spec)
        if t_fail[0] is not None and time.time() - t_fail[0] > shrink_cap:
            raise _StopSearch()
        if t_fail[0] is None and time.time() - t0 > gen_cap:
            st["capped"] = True
            raise _StopSearch()

    test = given(facet.strategy())(body)
    test = settings(
        max_examples=n, database=None, deadline=None, print_blob=False,
        phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck), derandomize=False,
    )(test)
    test = hypothesis.seed(shard_seed(base_seed, prop, facet_name, shard))(test)
    try:
        test()
    except _StopSearch:
        pass
    except BaseException as e:
        if best[0] is None:
            if isinstance(e, KeyboardInterrupt):
                raise
            st["harness"] = traceback.format_exc()
    if best[0] is not None:
        spec = json.loads(canonical(best[0][1]))
        # plain re-execution outside the library
        status, payload = evaluate(facet, spec)
        st["violation"] = {
            "facet": facet_name, "spec": spec,
            "message": payload if status == "violation" else best[0][2],
            "reproduced": status == "violation",
        }
    st["wall"] = time.time() - t0
    return facet_name, shard, st


def _silence():
    import warnings
    warnings.filterwarnings("ignore")
    import numpy as np
    np.seterr(all="ignore")


def _worker_init():
    _silence()
    os.environ.setdefault("OMP_NUM_THREADS", "1")


def load_known():
    p = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["known"]


def write_replay(prop, v):
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{v['facet']}-{digest(v['spec'])}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "facet": v["facet"], "spec": v["spec"], "message": v["message"]},
                  f, indent=1, sort_keys=True)
        f.write("\n")
    return path


def replay(path):
    with open(path) as f:
        r = json.load(f)
    mod = importlib.import_module(f"props.{r['property']}")
    facet = next(f for f in mod.FACETS if f.name == r["facet"])
    status, payload = evaluate(facet, r["spec"])
    print(f"{r['property']} {r['facet']}: {status} {payload or ''}")
    if status == "violation":
        print(f"VIOLATION property={r['property']} replay={path}")
        return 1
    return 2 if status == "harness" else 0


def regressions(prop):
    d = os.path.join(VERIF, "regress", prop)
    if not os.path.isdir(d):
        return []
    out = []
    for n in sorted(os.listdir(d)):
        if n.endswith(".json"):
            out.append(os.path.join(d, n))
    return out


def run_property(prop, tier, base_seed, workers=None, budget=None):
    t0 = time.time()
    _silence()
    mod = importlib.import_module(f"props.{prop}")
    workers = workers or min(8, os.cpu_count() or 1)
    quick = tier != "thorough"
    gen_cap = (budget or (420 if quick else 3000))
    shrink_cap = 40 if quick else 120
    violations, harness = [], []
    per_facet = {}
    facets = {f.name: f for f in mod.FACETS}
    evaluations = 0

    # 1. saved inputs of repaired defects
    n_reg = 0
    for path in regressions(prop):
        with open(path) as f:
            r = json.load(f)
        status, payload = evaluate(facets[r["facet"]], r["spec"])
        n_reg += 1
        evaluations += 1
        if status == "violation":
            violations.append({"facet": r["facet"], "spec": r["spec"], "message": payload, "reproduced": True,
                               "regress": path})
        elif status not in ("ok", "trivial"):
            harness.append(f"regression {path}: {status} {payload}")

    # 2. known findings
    known = [k for k in load_known() if k["property"] == prop]
    for k in known:
        status, payload = evaluate(facets[k["facet"]], k["spec"])
        evaluations += 1
        if status == "violation":
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
        elif status == "harness":
            harness.append(f"known finding {k['id']}: {payload}")

    # 3. generated search
    tasks = []
    for f in mod.FACETS:
        n = f.quick if quick else f.thorough
        s = f.shards if quick else f.thorough_shards
        s = max(1, min(s, n))
        for i in range(s):
            tasks.append((f.name, i, math.ceil(n / s)))
    # long facets first
    tasks.sort(key=lambda t: (-t[2], t[0], t[1]))
    results = []
    ctx = multiprocessing.get_context("fork")
    with cf.ProcessPoolExecutor(max_workers=workers, mp_context=ctx, initializer=_worker_init) as ex:
        futs = {
            ex.submit(run_shard, prop, name, i, n, base_seed, gen_cap, shrink_cap): (name, i)
            for name, i, n in tasks
        }
        for fu in cf.as_completed(futs):
            try:
                results.append(fu.result())
            except BaseException as e:
                harness.append(f"{futs[fu]}: {type(e).__name__}: {e}")
    results.sort(key=lambda r: (r[0], r[1]))
    distinct = 0
    samples = []
    by_facet_hash = {}
    for name, i, st in results:
        pf = per_facet.setdefault(
            name, {"evaluations": 0, "distinct_nontrivial": 0, "rejected": 0, "trivial": 0, "classes": {},
                   "time_capped_shards": 0, "wall_s": 0.0})
        pf["evaluations"] += st["evaluations"]
        pf["rejected"] += st["rejected"]
        pf["trivial"] += st["trivial"]
        pf["time_capped_shards"] += int(st["capped"])
        pf["wall_s"] = round(pf["wall_s"] + st["wall"], 2)
        for t, c in st["tags"].items():
            pf["classes"][t] = pf["classes"].get(t, 0) + c
        by_facet_hash.setdefault(name, set()).update(st["hashes"])
        evaluations += st["evaluations"]
        if st["samples"] and not any(s["facet"] == name for s in samples):
            samples.append({"facet": name, "case": st["samples"][0]})
        if st["violation"]:
            violations.append(st["violation"])
        if st["harness"]:
            harness.append(f"{name}/{i}: {st['harness']}")
    for name, hs in by_facet_hash.items():
        per_facet[name]["distinct_nontrivial"] = len(hs)
        distinct += len(hs)
        pf = per_facet[name]
        if len(pf["classes"]) > 60:
            top = sorted(pf["classes"].items(), key=lambda kv: (-kv[1], kv[0]))
            rest = top[60:]
            pf["classes"] = dict(top[:60])
            pf["classes"]["(other %d classes)" % len(rest)] = sum(c for _, c in rest)
        if not violations and pf["evaluations"] and len(hs) < facets[name].min_nontrivial * pf["evaluations"]:
            harness.append(f"{name}: only {len(hs)} of {pf['evaluations']} cases are non-trivial")

    # known findings never reported again: exact spec only
    kn = {(k["facet"], canonical(k["spec"])) for k in known}
    violations = [v for v in violations if (v["facet"], canonical(v["spec"])) not in kn]

    code = 0
    if violations:
        code = 1
        seen = set()
        violations.sort(key=lambda v: (v["facet"], len(canonical(v["spec"]))))
        for v in violations:
            if v["facet"] in seen:
                continue
            seen.add(v["facet"])
            path = write_replay(prop, v)
            print(f"  {v['facet']}: {v['message'][:600]}")
            print(f"  case: {canonical(v['spec'])[:600]}")
            print(f"VIOLATION property={prop} replay={os.path.relpath(path, VERIF)}")
    elif harness:
        code = 2
    for h in harness:
        print(f"HARNESS-ERROR {prop}: {h}", file=sys.stderr)
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": "thorough" if not quick else "quick", "seed": base_seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": distinct,
            "rule": mod.RULE, "samples": samples, "facets": per_facet,
            "replayed_regressions": n_reg,
            "known_findings_replayed": len(known),
            "inconclusive_shards": sum(p["time_capped_shards"] for p in per_facet.values()),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len({v["facet"] for v in violations}),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    print(f"{prop}: {evaluations} cases, {distinct} distinct non-trivial, {len(violations)} violations, "
          f"{wall:.1f} s, exit {code}")
    return code
