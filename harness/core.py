"""The generated-input search: facets, shards, shrinking, replay, evidence."""

import contextlib
import hashlib
import io
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

import numpy as np

SHARDS = 8
CASE_ALARM_S = 100  # a single case normally takes milliseconds
SHRINK_S = 60  # wall time spent on shrinking a failure


class Violation(Exception):
    """The property does not hold for this case.  `key` names the entry of
    KNOWN_FINDINGS.txt whose failing behaviour this is exactly, if any."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Stop(BaseException):
    """Leaves the Hypothesis engine."""


class Hang(BaseException):
    """A case did not end."""


class Facet:
    """One executable reading of (a part of) a property.

    strategy: Hypothesis strategy producing JSON-serialisable cases
    check:    case -> (nontrivial, [tags]); raises Violation
    weight:   share of the examples, relative to the other facets
    """

    def __init__(self, name, strategy, check, quick, thorough=None):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 40


class Property:
    def __init__(self, id, facets, rule, assumptions=(), warmup=None):
        self.id = id
        self.facets = facets
        self.rule = rule
        self.assumptions = list(assumptions)
        self.warmup = warmup
        self.known_keys = set()


# ----------------------------------------------------------------- oracles' tools


@contextlib.contextmanager
def sut(what="the call"):
    """Code under test and comparisons of its results run in here: whatever is
    raised is a violation (inputs are valid ones)."""
    try:
        yield
    except Violation:
        raise
    except (KeyboardInterrupt, SystemExit):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        at = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb][-1]
        raise Violation(f"{what} raised {type(e).__name__}: {e} (at {at})") from e


def need(cond, msg):
    if not cond:
        raise Violation(msg)


def _short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def same(got, want, what):
    """Exact agreement of arrays (values and shape)."""
    g = np.asarray(got)
    w = np.asarray(want)
    if g.shape != w.shape:
        raise Violation(f"{what}: shape {g.shape}, expected {w.shape}")
    if g.dtype == object or w.dtype == object:
        ok = g.tolist() == w.tolist()
    else:
        ok = np.array_equal(g, w)
    if not ok:
        raise Violation(f"{what}: got {_short(g.tolist())}, expected {_short(w.tolist())}")


def close(got, want, what, rtol=1e-9, atol=1e-12):
    """Agreement up to rounding; infinities and NaNs must match."""
    g = np.asarray(got)
    w = np.asarray(want, dtype=float)
    if g.dtype == object:
        g = g.astype(float)
    if np.iscomplexobj(g):
        raise Violation(f"{what}: complex result")
    if g.shape != w.shape:
        raise Violation(f"{what}: shape {g.shape}, expected {w.shape}")
    g = g.astype(float)
    if not np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True):
        raise Violation(f"{what}: got {_short(g.tolist())}, expected {_short(w.tolist())}")


@contextlib.contextmanager
def captured():
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        yield buf


def raises(exc, fn, what):
    """fn() must raise exc (and nothing else)."""
    try:
        fn()
    except exc:
        return
    except Exception as e:
        raise Violation(f"{what}: raised {type(e).__name__} ({e}), expected {exc.__name__}")
    raise Violation(f"{what}: did not raise {exc.__name__}")


# ----------------------------------------------------------------- one execution


def canonical(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def digest(text):
    return hashlib.sha1(text.encode()).hexdigest()[:16]


def execute(facet, case):
    """Run one case from a clean random state; (nontrivial, tags)."""
    h = int(digest(canonical(case)), 16)
    np.random.seed(h % (2**32))
    random.seed(h)
    with captured():
        try:
            res = facet.check(case)
        except Violation:
            raise
        except Exception as e:
            # on the tree where the property holds no case gets here: a result
            # of the code under test is not what the oracle can read
            tb = traceback.extract_tb(e.__traceback__)
            at = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb][-1]
            raise Violation(f"reading the results raised {type(e).__name__}: {e} (at {at})") from e
    return res


def _alarm(signum, frame):
    raise Hang()


def _guarded(facet, case, alarm=CASE_ALARM_S):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(alarm)
    try:
        return execute(facet, case)
    finally:
        signal.alarm(0)


# ----------------------------------------------------------------- one shard


def _body(prop, facet, st, fail, t_end):
    def body(case):
        now = time.monotonic()
        if fail["t0"] is None and now > t_end:
            st["skipped"] += 1
            return
        if fail["t0"] is not None and now - fail["t0"] > SHRINK_S:
            raise Stop()
        text = canonical(case)
        case = json.loads(text)
        if fail["t0"] is None:
            st["evaluations"] += 1
        try:
            nontrivial, tags = _guarded(facet, case)
        except Hang:
            fail.update(case=case, msg="the case did not end", t0=now, size=0)
            raise Stop()
        except Violation as v:
            if v.key in prop.known_keys:
                st["known"][v.key] = st["known"].get(v.key, 0) + 1
                return
            if fail["t0"] is None:
                fail["t0"] = now
            if fail["size"] is None or len(text) <= fail["size"]:
                fail.update(case=case, msg=str(v), size=len(text))
            raise
        if fail["t0"] is None:
            for t in tags:
                st["tags"][t] = st["tags"].get(t, 0) + 1
            if nontrivial:
                d = digest(text)
                if d not in st["distinct"]:
                    st["distinct"].add(d)
                    if len(st["samples"]) < 2 and len(text) < 2500:
                        st["samples"].append(case)

    return body


def run_shard(prop, shard, seed, tier, budget_s, queue, only=None):
    out = {"shard": shard, "facets": {}, "violation": None, "error": None}
    try:
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings

        t_end = time.monotonic() + budget_s
        for facet in prop.facets:
            if only and facet.name != only:
                continue
            n = facet.quick if tier == "quick" else facet.thorough
            n = max(1, -(-n // SHARDS))
            st = {
                "evaluations": 0,
                "distinct": set(),
                "tags": {},
                "samples": [],
                "skipped": 0,
                "known": {},
            }
            out["facets"][facet.name] = st
            fail = {"case": None, "msg": None, "t0": None, "size": None}

            name = f"{prop.id}/{facet.name}"
            s = int(digest(f"{seed}/{shard}/{name}"), 16) % (2**62)
            test = given(facet.strategy)(_body(prop, facet, st, fail, t_end))
            test = hypothesis.seed(s)(test)
            test = settings(
                max_examples=n,
                deadline=None,
                database=None,
                derandomize=False,
                report_multiple_bugs=False,
                print_blob=False,
                phases=[Phase.generate, Phase.shrink],
                suppress_health_check=list(HealthCheck),
            )(test)
            try:
                with captured():
                    test()
            except Stop:
                pass
            except Exception as e:
                if fail["case"] is None:
                    raise
                del e
            if fail["case"] is not None:
                again = "yes"
                msg = fail["msg"]
                try:
                    _guarded(facet, fail["case"])
                    again = "no (depends on earlier cases of the run)"
                except Violation as v:
                    msg = str(v)
                except Hang:
                    msg = f"did not end within {CASE_ALARM_S} s, twice"
                if not (msg == "the case did not end" and again != "yes"):
                    out["violation"] = {
                        "property": prop.id,
                        "facet": facet.name,
                        "case": fail["case"],
                        "message": msg,
                        "reproduces_alone": again,
                        "seed": seed,
                        "shard": shard,
                    }
                    break
    except BaseException:
        out["error"] = traceback.format_exc()
    for st in out["facets"].values():
        st["distinct"] = sorted(st["distinct"])
    queue.put(out)


# ----------------------------------------------------------------- the check


def known_findings(root, pid):
    """Lines 'known: property=<id> key=<key> <text>' of KNOWN_FINDINGS.txt."""
    res = {}
    path = os.path.join(root, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: "):
                parts = line[7:].strip().split(" ", 2)
                if parts[0] == f"property={pid}" and parts[1].startswith("key="):
                    res[parts[1][4:]] = parts[2]
    return res


def run_check(prop, root):
    t0 = time.monotonic()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    for f in prop.facets:
        # the counts of properties with a warm-up (slow libraries) are final
        f.quick = max(1, int(f.quick * scale * (1 if prop.warmup else 3)))
        f.thorough = max(1, int(f.thorough * scale))
    budget = 420 if tier == "quick" else int(os.environ.get("VERIF_BUDGET", "3000"))
    if prop.warmup:
        prop.warmup()
    known = known_findings(root, prop.id)
    prop.known_keys = set(known)

    ctx = mp.get_context("fork")
    queue = ctx.Queue()
    only = os.environ.get("VERIF_FACET")
    sys.stdout.flush()
    procs = [
        ctx.Process(
            target=run_shard, args=(prop, i, seed, tier, budget, queue, only), daemon=True
        )
        for i in range(SHARDS)
    ]
    for p in procs:
        p.start()
    outs, violation, error = [], None, None
    import queue as q

    first_bad = None
    while len(outs) < SHARDS:
        try:
            o = queue.get(timeout=5)
        except q.Empty:
            dead = [p for p in procs if not p.is_alive() and p.exitcode not in (0, None)]
            if dead and len(dead) + len(outs) >= SHARDS:
                error = error or f"a worker ended with exit code {dead[0].exitcode}"
                break
            if first_bad is not None and time.monotonic() - first_bad > 20:
                break
            continue
        outs.append(o)
        if o["error"]:
            error = error or o["error"]
        if o["violation"] and violation is None:
            violation = o["violation"]
            first_bad = time.monotonic()
        if violation is not None:
            break
    for p in procs:
        if p.is_alive():
            p.terminate()
    for p in procs:
        p.join(5)
        if p.is_alive():
            p.kill()

    facets, distinct, evals, samples, skipped, seen = {}, 0, 0, [], 0, {}
    for f in prop.facets:
        sts = [o["facets"][f.name] for o in outs if f.name in o["facets"]]
        ds, tags = set(), {}
        for s in sts:
            ds.update(s["distinct"])
            for k, v in s["tags"].items():
                tags[k] = tags.get(k, 0) + v
            for k, v in s["known"].items():
                seen[k] = seen.get(k, 0) + v
        e = sum(s["evaluations"] for s in sts)
        facets[f.name] = {
            "evaluations": e,
            "distinct_nontrivial": len(ds),
            "classes": dict(sorted(tags.items())),
        }
        evals += e
        distinct += len(ds)
        skipped += sum(s["skipped"] for s in sts)
        cand = [x for s in sts for x in s["samples"]]
        for x in cand[:2]:
            samples.append({"facet": f.name, "case": x})
    ev = {
        "property": prop.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": distinct,
            "rule": prop.rule,
            "samples": samples,
            "facets": facets,
            "skipped_for_time": skipped,
            "known_findings_seen": seen,
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(root, "evidence"), exist_ok=True)
    with open(os.path.join(root, "evidence", prop.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    for k, text in known.items():
        print(f"KNOWN-FINDING: property={prop.id} {text}")
    if violation:
        os.makedirs(os.path.join(root, "replays"), exist_ok=True)
        tag = digest(violation["facet"] + canonical(violation["case"]))[:10]
        path = os.path.join(root, "replays", f"{prop.id}-{tag}.json")
        with open(path, "w") as f:
            json.dump(violation, f, indent=1)
        print(f"{violation['facet']}: {violation['message']}")
        print(f"VIOLATION property={prop.id} replay={path}")
        return 1
    if error:
        print(error, file=sys.stderr)
        return 2
    print(
        f"{prop.id}: held on {evals} generated cases "
        f"({distinct} distinct non-trivial), {ev['wall_s']} s"
    )
    return 0


def run_replay(prop, path):
    data = json.load(open(path))
    if prop.warmup:
        prop.warmup()
    for f in prop.facets:
        if f.name == data["facet"]:
            try:
                _guarded(f, data["case"])
            except Violation as v:
                print(f"{f.name}: {v}")
                print(f"VIOLATION property={prop.id} replay={path}")
                return 1
            except Hang:
                print(f"{f.name}: the case did not end")
                print(f"VIOLATION property={prop.id} replay={path}")
                return 1
            print("the property holds for this case")
            return 0
    print("no such facet", data["facet"], file=sys.stderr)
    return 2
