"""Drives the sub-checks of one property and writes its evidence file."""
import hashlib, importlib, json, os, signal, sys, time, traceback, warnings, contextlib, io

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK")
CRASH_SIGNALS = {signal.SIGSEGV, signal.SIGFPE, signal.SIGABRT, signal.SIGBUS, signal.SIGILL}


def dumps(case):
    return json.dumps(case, sort_keys=True)


class StopShrink(BaseException):
    pass


def reseed(case_s):
    import random
    import numpy as np

    h = int.from_bytes(hashlib.sha256(case_s.encode()).digest()[:4], "big")
    random.seed(h)
    np.random.seed(h)


def run_case(sub, case):
    """-> (kind, message, labels); kind: trivial / nontrivial / rejected / violation"""
    from . import core

    core._labels.clear()
    reseed(dumps(case))
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            r = sub.fn(case)
        return ("nontrivial" if r else "trivial"), "", list(core._labels)
    except core.Rejected:
        return "rejected", "", list(core._labels)
    except core.HarnessError:
        raise
    except core.Violation as e:
        return "violation", str(e), list(core._labels)
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception:
        return "violation", "exception while deciding the case:\n" + traceback.format_exc(limit=-8), []


def task(suite, sub, shard, tier, seed, deadline, out_path, cur_path):
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase

    n = sub.quick if tier == "quick" else sub.thorough
    n = max(1, -(-n // sub.shards))
    stats = dict(evaluations=0, rejected=0, skipped_for_time=0, labels={}, samples=[])
    hashes = set()
    fail = {}
    t_fail = [None]
    shrink_budget = 45 if tier == "quick" else 180
    cur = os.open(cur_path, os.O_RDWR | os.O_CREAT | os.O_TRUNC)

    if sub.setup:
        with contextlib.redirect_stdout(io.StringIO()):
            sub.setup()

    def body(case):
        s = dumps(case)
        if t_fail[0] is not None and time.time() > t_fail[0] + shrink_budget:
            raise StopShrink()
        if time.time() > deadline and t_fail[0] is None:
            stats["skipped_for_time"] += 1
            return
        case = json.loads(s)
        b = s.encode()
        os.ftruncate(cur, 0)
        os.pwrite(cur, b, 0)
        kind, msg, labels = run_case(sub, case)
        stats["evaluations"] += 1
        if kind == "violation":
            t_fail[0] = t_fail[0] or time.time()
            if "case" not in fail or len(s) <= len(fail["s"]):
                fail.update(case=case, s=s, msg=msg)
            raise AssertionError(msg)
        for l in labels:
            stats["labels"][l] = stats["labels"].get(l, 0) + 1
        if kind == "rejected":
            stats["rejected"] += 1
        if kind == "nontrivial":
            h = hashlib.sha256(b).hexdigest()[:16]
            if h not in hashes:
                hashes.add(h)
                if len(stats["samples"]) < 2 and len(hashes) in (1, 1 + n // 2):
                    stats["samples"].append(case if len(s) < 3000 else s[:3000] + "...")

    h = int.from_bytes(hashlib.sha256(f"{seed}/{suite.prop}/{sub.name}/{shard}".encode()).digest()[:8], "big")
    test = hypothesis.seed(h)(
        settings(
            max_examples=n,
            database=None,
            deadline=None,
            derandomize=False,
            report_multiple_bugs=False,
            print_blob=False,
            phases=[Phase.generate, Phase.shrink],
            suppress_health_check=[
                HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example,
            ],
        )(given(sub.strategy)(body))
    )
    err = None
    try:
        test()
    except StopShrink:
        pass
    except BaseException as e:
        if not fail:
            err = "".join(traceback.format_exception(e))
    res = dict(sub=sub.name, shard=shard, stats=stats, hashes=sorted(hashes), error=err)
    if fail:
        res["fail"] = dict(case=fail["case"], msg=fail["msg"])
    tmp = out_path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(res, f)
    os.rename(tmp, out_path)


def load(prop):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        mod = importlib.import_module("checks." + prop)
    return mod.suite


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def write_replay(prop, sub, case, msg):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(dumps(case).encode()).hexdigest()[:10]
    p = os.path.join(d, f"{prop}-{sub}-{h}.json")
    with open(p, "w") as f:
        json.dump(dict(property=prop, sub=sub, case=case, message=msg), f, indent=1)
    return p


LAZY = {"dolo.algos.invert", "quantecon.random.utilities"}
EAGER = {"C15", "C24", "C33", "C35", "C37"}


def lazy_compilation():
    """Array operations which are compiled when these modules are imported (half the start-up time) are compiled
    when they are first called instead, in checks which do not exercise them."""
    import numba

    build = numba.guvectorize

    class Lazy:
        def __init__(self, mk):
            self.mk, self.fn = mk, None

        def __call__(self, *a, **k):
            if self.fn is None:
                self.fn = self.mk()
            return self.fn(*a, **k)

    def guvectorize(*a, **k):
        deco = build(*a, **k)
        return lambda fn: Lazy(lambda: deco(fn)) if getattr(fn, "__module__", None) in LAZY else deco(fn)

    numba.guvectorize = guvectorize
    return lambda: setattr(numba, "guvectorize", build)


def check_imports():
    import dolo

    got = os.path.realpath(os.path.dirname(dolo.__file__))
    want = os.path.realpath(os.path.join(REPO, "dolo"))
    if got != want:
        print(f"ERROR: dolo was imported from {got}, not {want}")
        sys.exit(2)


def forked(fn, *args):
    """Run fn(*args) in a forked child; -> wait status"""
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            fn(*args)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stdout.flush(); sys.stderr.flush()
            os._exit(code)
    return pid


def replay(suite, path, quiet=False):
    with open(path) as f:
        r = json.load(f)
    sub = suite.subs.get(r["sub"])
    if sub is None:
        print("ERROR: no sub-check", r["sub"]); return 2
    out = os.path.join(WORK, "replay.out")

    def go():
        if sub.setup:
            sub.setup()
        k, m, l = run_case(sub, r["case"])
        with open(out, "w") as f:
            json.dump([k, m], f)

    if os.path.exists(out):
        os.unlink(out)
    pid = forked(go)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) in CRASH_SIGNALS:
        kind, msg = "violation", f"the process died with signal {os.WTERMSIG(st)}"
    elif st != 0:
        print("ERROR: the case could not be decided"); return 2
    else:
        kind, msg = json.load(open(out))
    if quiet:
        return kind, msg
    print(f"{r['sub']}: {kind} {msg}")
    if kind == "violation":
        print(f"VIOLATION property={suite.prop} replay={os.path.abspath(path)}")
        return 1
    return 0


def main(argv):
    t0 = time.time()
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = None
    try:
        undo = (lambda: None) if prop in EAGER else lazy_compilation()
        with contextlib.redirect_stdout(io.StringIO()):
            suite = load(prop)
        check_imports()
        undo()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print("ERROR: the check could not be set up")
        return 2
    if "--replay" in argv:
        return replay(suite, argv[argv.index("--replay") + 1])
    if "--sub" in argv:
        only = argv[argv.index("--sub") + 1].split(",")

    t_import = time.time() - t0
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    budget = float(os.environ.get("VERIF_BUDGET", "420" if tier == "quick" else "10800"))
    deadline = t0 + budget
    ncpu = min(8, os.cpu_count() or 1)

    status = 0
    # listed findings: pinned cases which still fail on the unchanged tree
    kf = []
    for k in known_findings(prop):
        p = os.path.join(WORK, "kf.json")
        with open(p, "w") as f:
            json.dump(dict(sub=k["sub"], case=k["case"]), f)
        r = replay(suite, p, quiet=True)
        if r == 2:
            return 2
        if r[0] == "violation":
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
            kf.append(k["id"])

    tasks = []
    for sub in suite.subs.values():
        if only and sub.name not in only:
            continue
        sub.quick = max(1, int(sub.quick * scale)); sub.thorough = max(1, int(sub.thorough * scale))
        if tier == "thorough":
            sub.shards = min(8, sub.shards * 4)
        for i in range(sub.shards):
            tasks.append((sub, i))
    running, results, errors = {}, [], []
    hard = deadline + (120 if tier == "quick" else 600)   # a case that does not end: no verdict
    queue = list(tasks)
    while queue or running:
        while queue and len(running) < ncpu:
            sub, i = queue.pop(0)
            out = os.path.join(WORK, f"out-{sub.name}-{i}.json")
            cur = os.path.join(WORK, f"cur-{sub.name}-{i}.json")
            pid = forked(task, suite, sub, i, tier, seed, deadline, out, cur)
            running[pid] = (sub, i, out, cur, time.time())
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            if time.time() > hard:
                for k in running:
                    os.kill(k, signal.SIGKILL)
                hard = float("inf")
            time.sleep(0.05)
            continue
        if pid not in running:
            continue
        sub, i, out, cur, ts = running.pop(pid)
        if os.environ.get("VERIF_VERBOSE"):
            print(f"  {sub.name}/{i}: {time.time()-ts:.1f}s", file=sys.stderr)
        if os.path.exists(out):
            results.append(json.load(open(out)))
        elif os.WIFSIGNALED(st) and os.WTERMSIG(st) in CRASH_SIGNALS and hard != float("inf"):
            try:
                case = json.load(open(cur))
                results.append(dict(sub=sub.name, shard=i, hashes=[], error=None,
                                    stats=dict(evaluations=1, rejected=0, skipped_for_time=0, labels={}, samples=[]),
                                    fail=dict(case=case, msg=f"the process died with signal {os.WTERMSIG(st)}")))
            except Exception:
                errors.append(f"{sub.name}/{i}: died with signal {os.WTERMSIG(st)} before its first case")
        else:
            errors.append(f"{sub.name}/{i}: ended with status {st}")

    # -- summary -----------------------------------------------------------
    per, allh, samples, violations = {}, set(), [], []
    results.sort(key=lambda r: (list(suite.subs).index(r["sub"]), r["shard"]))
    for r in results:
        p = per.setdefault(r["sub"], dict(evaluations=0, rejected=0, skipped_for_time=0, distinct_nontrivial=0, labels={}, _h=set()))
        for k in ("evaluations", "rejected", "skipped_for_time"):
            p[k] += r["stats"][k]
        for k, v in r["stats"]["labels"].items():
            p["labels"][k] = p["labels"].get(k, 0) + v
        p["_h"].update(r["hashes"])
        allh.update(r["sub"] + h for h in r["hashes"])
        if r["shard"] == 0:
            samples += [dict(sub=r["sub"], case=c) for c in r["stats"]["samples"]]
        if r["error"]:
            errors.append(f"{r['sub']}/{r['shard']}: {r['error']}")
        if r.get("fail"):
            violations.append((r["sub"], r["fail"]))
    for p in per.values():
        p["distinct_nontrivial"] = len(p.pop("_h"))
    seen = set()
    for sub, f in violations:
        path = write_replay(prop, sub, f["case"], f["msg"])
        status = 1
        if sub in seen:
            continue
        seen.add(sub)
        print(f"{sub}: {f['msg']}")
        print(f"  case: {dumps(f['case'])[:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
    ev = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=sum(p["evaluations"] for p in per.values()),
            distinct_nontrivial=len(allh),
            rule=suite.rule,
            samples=samples,
            per_subcheck=per,
            known_findings_reproduced=kf,
        ),
        assumptions=["numerical comparisons use the tolerances stated in checks/%s.py" % prop],
        wall_s=round(time.time() - t0, 2),
        violations=len(violations),
    )
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if os.environ.get("VERIF_VERBOSE"):
        for k, p in per.items():
            print(k, json.dumps({a: b for a, b in p.items()}))
    for e in errors:
        print("ERROR:", e)
    if errors and status == 0:
        status = 2
    print(f"{prop}: {ev['coverage']['evaluations']} cases, {len(allh)} distinct non-trivial, "
          f"{len(violations)} violations, {ev['wall_s']} s (import {t_import:.1f} s)")
    return status
