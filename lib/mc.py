"""Small explicit-enumeration engine shared by all checks.

A check is a module with

    ID, LEVEL, RULE, ASSUMPTIONS
    scenarios(tier, seed) -> list of JSON-able scenarios (the enumerated space)
    run(scenario, ctx)    -> explores one scenario completely on the real code

Scenarios are distributed over worker processes (fork); within a scenario a
check may enumerate further with ``ctx.explore`` (a depth-first exploration of
the tree of all choices made by the environment).
"""
import concurrent.futures as cf
import contextlib
import hashlib
import json
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PYMARS_REPO", "/repo")


class Hang(BaseException):
    """Raised in code under test that used up its CPU or simulation budget."""


class StopScenario(Exception):
    """The scenario has been decided (a violation was found)."""


def jsonable(obj):
    if isinstance(obj, dict):
        return {str(k): jsonable(v) for k, v in obj.items()}
    if isinstance(obj, (set, frozenset)):
        return sorted((jsonable(v) for v in obj), key=str)
    if isinstance(obj, (list, tuple)):
        return [jsonable(v) for v in obj]
    if isinstance(obj, (str, int, bool)) or obj is None:
        return obj
    try:
        return float(obj)
    except (TypeError, ValueError):
        return repr(obj)


class Chooser:
    """One path through a choice tree; records the arity of every choice."""

    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.trace = []  # (chosen, arity)

    def choose(self, n):
        pos = len(self.trace)
        c = self.prefix[pos] if pos < len(self.prefix) else 0
        if c >= n:  # the tree changed: the code under test is not deterministic
            raise RuntimeError("choice tree changed between runs")
        self.trace.append((c, n))
        return c

    def next_prefix(self):
        trace = list(self.trace)
        while trace:
            c, n = trace.pop()
            if c + 1 < n:
                return [t[0] for t in trace] + [c + 1]
        return None


class Ctx:
    def __init__(self, check_id, scn, tier, deadline):
        self.check_id = check_id
        self.scn = scn
        self.tier = tier
        self.deadline = deadline
        self.c = {"evaluations": 0, "transitions": 0, "traces": 0}
        self.distinct = set()
        self.states = set()
        self.samples = []
        self.violations = []
        self.complete = True
        self.extra = {}

    # -- counters
    def evaluated(self, key=None, nontrivial=True):
        self.c["evaluations"] += 1
        if key is not None and nontrivial:
            self.distinct.add(self._h(key))

    def state(self, key):
        self.states.add(self._h((self.scn.get("space", ""), key)))

    def transition(self, n=1):
        self.c["transitions"] += n

    def trace(self, n=1):
        self.c["traces"] += n

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(jsonable(obj))

    @staticmethod
    def _h(key):
        return hashlib.md5(repr(key).encode()).hexdigest()[:16]

    # -- violations
    def violation(self, key, message, detail=None, stop=True):
        """``key`` identifies the failing input, call site or history."""
        self.violations.append(
            {"key": key, "message": message, "detail": jsonable(detail),
             "scenario": jsonable(self.scn)}
        )
        if stop:
            raise StopScenario()

    def check(self, cond, key, message, detail=None):
        if not cond:
            self.violation(key, message, detail() if callable(detail) else detail)

    # -- exploration
    def out_of_time(self):
        if time.time() > self.deadline:
            self.complete = False
            return True
        return False

    def explore(self, execute, max_runs=None):
        """Depth-first, complete exploration of the choice tree of ``execute``."""
        prefix = self.scn.get("prefix")
        if prefix is not None and self.scn.get("replay"):
            ch = Chooser(prefix)
            execute(ch)
            return 1
        prefix, runs = [], 0
        while prefix is not None:
            if self.out_of_time():
                break
            if max_runs is not None and runs >= max_runs:
                self.complete = False
                break
            ch = Chooser(prefix)
            try:
                execute(ch)
            except StopScenario:
                for v in self.violations:
                    v["scenario"].setdefault("prefix", [t[0] for t in ch.trace])
                    v["scenario"]["replay"] = True
                raise
            runs += 1
            prefix = ch.next_prefix()
        return runs


@contextlib.contextmanager
def cpu_limit(seconds):
    """Raise Hang in the enclosed code after so many seconds of CPU time."""

    def handler(signum, frame):
        raise Hang(f"more than {seconds} s of CPU time")

    old = signal.signal(signal.SIGPROF, handler)
    signal.setitimer(signal.ITIMER_PROF, seconds, 1.0)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0.0)
        signal.signal(signal.SIGPROF, old)


@contextlib.contextmanager
def wall_limit(seconds):
    if not seconds:
        yield
        return

    def handler(signum, frame):
        raise Hang(f"more than {seconds} s")

    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds, 1.0)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0.0)
        signal.signal(signal.SIGALRM, old)


def outcome(fn, limit=20.0, wall=None):
    """('ok', value) | ('exit', message) | ('hang', message) | ('exc', type, message)"""
    try:
        with cpu_limit(limit), wall_limit(wall):
            return ("ok", fn())
    except Hang as e:
        return ("hang", str(e))
    except SystemExit as e:
        return ("exit", str(e))
    except StopScenario:
        raise
    except Exception as e:  # noqa
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb if "pymars" in f.filename]
        return ("exc", type(e).__name__, str(e)[:400], where[-1] if where else "")


# ---------------------------------------------------------------- worker side
_scratch = None


def scratch():
    """Scratch directory of this worker process."""
    return _scratch


def fresh_dir(name="w"):
    """Empty working directory below the scratch directory; becomes the cwd."""
    d = os.path.join(_scratch, name)
    os.chdir(_scratch)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    os.chdir(d)
    return d


def _init_worker(base):
    global _scratch
    _scratch = os.path.join(base, str(os.getpid()))
    os.makedirs(_scratch, exist_ok=True)
    os.environ["TMPDIR"] = _scratch
    tempfile.tempdir = None
    os.chdir(_scratch)
    signal.signal(signal.SIGTERM, signal.SIG_DFL)


def _work(module, scn, tier, deadline):
    ctx = Ctx(module.ID, scn, tier, deadline)
    err = None
    t0 = time.time()
    try:
        module.run(scn, ctx)
    except StopScenario:
        pass
    except Hang as e:
        err = "Hang outside of the code under test: " + str(e)
    except Exception:
        err = traceback.format_exc()[-3000:]
    os.chdir(_scratch)
    return {"c": ctx.c, "distinct": ctx.distinct, "states": ctx.states, "samples": ctx.samples,
            "violations": ctx.violations, "complete": ctx.complete, "extra": ctx.extra,
            "error": err, "scn": scn, "t": time.time() - t0}


_module = None
_tier = None
_deadline = None


def _entry(scn):
    return _work(_module, scn, _tier, _deadline)


def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        return json.load(f)


def main(module, argv):
    global _module, _tier, _deadline
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 1)
    ap.add_argument("--only", type=int, help="run only the scenario with this index")
    ap.add_argument("--verbose", action="store_true")
    args = ap.parse_args(argv)
    if args.replay:
        args.replay = os.path.abspath(args.replay)
    tier = "thorough" if args.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    budget = getattr(module, "BUDGET", {}).get(tier, 450.0 if tier == "quick" else 3000.0)
    _module, _tier, _deadline = module, tier, t0 + budget

    base = tempfile.mkdtemp(prefix="verif-" + module.ID + "-")
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    status = 2
    try:
        os.chdir(base)
        if args.replay:
            with open(args.replay) as f:
                scns = [json.load(f)["scenario"]]
        else:
            if hasattr(module, "prepare"):
                module.prepare(base)
            scns = module.scenarios(tier, seed)
        if args.only is not None:
            scns = [scns[args.only]]
        if args.replay and hasattr(module, "prepare"):
            module.prepare(base)
        status = _run(module, scns, tier, seed, args, t0, base)
    finally:
        os.chdir("/")
        if base.startswith(tempfile.gettempdir() + "/verif-"):
            shutil.rmtree(base, ignore_errors=True)
    return status


def _run(module, scns, tier, seed, args, t0, base):
    jobs = max(1, min(args.jobs, getattr(module, "MAX_JOBS", 64), len(scns)))
    tot = {"evaluations": 0, "transitions": 0, "traces": 0}
    distinct, states, samples, violations, errors, extra = set(), set(), [], [], [], {}
    complete, done = True, 0
    known = [f for f in known_findings().get("findings", []) if f["property"] == module.ID]
    known_keys = {f["key"]: f for f in known}
    mpctx = multiprocessing.get_context("fork")
    slow = []
    pending = list(range(len(scns)))[::-1]
    ex = cf.ProcessPoolExecutor(jobs, mp_context=mpctx, initializer=_init_worker, initargs=(base,))
    running = {}
    stop = False
    try:
        while (pending and not stop) or running:
            while pending and not stop and len(running) < jobs * 3:
                if time.time() > _deadline:
                    complete, stop = False, True
                    break
                i = pending.pop()
                running[ex.submit(_entry, scns[i])] = i
            if not running:
                break
            finished, _ = cf.wait(running, timeout=60, return_when=cf.FIRST_COMPLETED)
            if not finished and (stop or time.time() > _deadline + 120):
                complete = False
                break
            for fut in finished:
                i = running.pop(fut)
                try:
                    r = fut.result()
                except cf.process.BrokenProcessPool:
                    errors.append(f"worker died in or near scenario {scns[i]}")
                    running.clear()
                    stop = True
                    break
                done += 1
                for k in tot:
                    tot[k] += r["c"][k]
                distinct |= r["distinct"]
                states |= r["states"]
                for k, v in r["extra"].items():
                    extra[k] = extra.get(k, 0) + v
                complete = complete and r["complete"]
                if len(samples) < 6 and r["samples"] and done % max(1, len(scns) // 6) == 0:
                    samples += r["samples"][:1]
                elif len(samples) < 2:
                    samples += r["samples"][:1]
                if r["error"]:
                    errors.append(f"scenario {json.dumps(jsonable(r['scn']))[:300]}:\n{r['error']}")
                    if len(errors) > 3:
                        stop = True
                for v in r["violations"]:
                    violations.append(v)
                    if v["key"] not in known_keys:
                        stop = True
                slow.append((r["t"], i))
    finally:
        for p in list(getattr(ex, "_processes", {}).values()):
            if stop:
                with contextlib.suppress(Exception):
                    p.kill()
        ex.shutdown(wait=True, cancel_futures=True)
    if args.verbose:
        for t, i in sorted(slow)[-8:]:
            print(f"  {t:.2f}s scenario {i}: {json.dumps(jsonable(scns[i]))[:160]}", file=sys.stderr)
        print("  total cpu", round(sum(t for t, _ in slow), 1), file=sys.stderr)

    new = [v for v in violations if v["key"] not in known_keys]
    if stop and not new and not errors:
        complete = False
    wall = time.time() - t0
    cov = {"scenarios": done, "scenarios_total": len(scns), "exhaustive": bool(complete and done == len(scns)),
           "rule": module.RULE, "samples": samples[:6] or [jsonable(scns[0])]}
    cov["evaluations"] = tot["evaluations"]
    cov["distinct_nontrivial"] = len(distinct)
    if module.LEVEL == "model_checking":
        cov["states"] = len(states)
        cov["transitions"] = tot["transitions"]
        cov["traces_validated_against_impl"] = tot["traces"]
    cov.update({k: v for k, v in extra.items()})
    if hasattr(module, "BOUNDS"):
        cov["bounds"] = module.BOUNDS
    ev = {"property": module.ID, "tier": tier, "seed": seed, "level": module.LEVEL, "coverage": cov,
          "assumptions": list(module.ASSUMPTIONS), "wall_s": round(wall, 2), "violations": len(new)}
    if errors:
        ev["coverage"]["errors"] = errors[:3]
    if not args.replay and args.only is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", module.ID + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    for f in known:
        n = sum(v["key"] == f["key"] for v in violations)
        if n:
            print(f"KNOWN-FINDING: property={module.ID} {f['what']}")
    if new:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for n, v in enumerate(new[:3]):
            path = os.path.join(rdir, f"{module.ID}-{n}.json")
            if not args.replay:
                with open(path, "w") as f:
                    json.dump(v, f, indent=1)
            else:
                path = args.replay
            print(f"VIOLATION property={module.ID} replay={path}")
            print("  " + v["key"] + ": " + v["message"])
            print("  detail: " + json.dumps(v["detail"])[:1500])
        return 1
    if errors:
        print(f"ERROR property={module.ID}: {len(errors)} scenario(s) could not be judged")
        print(errors[0])
        return 2
    print(f"OK property={module.ID} tier={tier} scenarios={done}/{len(scns)} evaluations={tot['evaluations']} "
          f"distinct={len(distinct)} states={len(states)} transitions={tot['transitions']} "
          f"exhaustive={cov['exhaustive']} wall={wall:.1f}s")
    return 0
