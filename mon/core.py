"""Monitor core: verdict discipline, replay, evidence, observation counters, line coverage of the code under test.

A check is a module with
    PROP      property id
    RULE      what a case is and what makes it non-trivial
    REQUIRED  {counter: minimum} - events the deciding monitors must have seen, otherwise the run is inconclusive
    cases(tier, rng) -> iterator of JSON-able case dicts
    run(case, mon)   -> drives the real code and lets the monitors observe it
    finish(mon)      -> optional, judges what all cases together have put in mon.bag
Cases are dealt out to worker processes; a replay runs in the current process.
"""
import hashlib
import json
import os
import pickle
import random
import signal
import sys
import time
import traceback
from collections import Counter

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get("MON_EVIDENCE") or os.path.join(ROOT, "evidence")
REPO = os.environ.get("PYCOSE_REPO", "/repo")


class Violation(Exception):
    def __init__(self, what, key=None):
        super().__init__(what)
        self.key = key


class Watchdog(Exception):
    pass


def short(x, n=300):
    r = repr(x)
    return r if len(r) <= n else r[:n] + "...(%d)" % len(r)


def _own(e):
    """With MON_DEBUG: a refusal that the harness itself raised, by a mistake in it, is reported."""
    if os.environ.get("MON_DEBUG") and not isinstance(e, Violation):
        f = traceback.extract_tb(e.__traceback__)[-1]
        if os.path.realpath(f.filename).startswith(os.path.join(ROOT, "mon")):
            sys.stderr.write("HARNESS %s at %s:%d: %s\n" % (type(e).__name__, f.filename, f.lineno, e))


class Mon:
    """What the monitors saw in this run."""

    def __init__(self, prop):
        self.prop = prop
        self.counters = Counter()
        self.sigs = set()
        self.samples = []
        self.rejections = Counter()
        self.bag = {}           # values collected for finish(), which sees those of all workers

    def keep(self, name, value):
        self.bag.setdefault(name, []).append(value)

    # -- observation ---------------------------------------------------------------------------------------------
    def saw(self, kind, *sig):
        self.counters[kind] += 1
        if sig:
            self.sigs.add(hashlib.blake2b(repr((kind, sig)).encode(), digest_size=8).digest())

    # -- monitors around calls into the code under test ----------------------------------------------------------
    def must(self, what, fn, *a, **kw):
        """A legal call: it has to return."""
        try:
            return fn(*a, **kw)
        except (KeyboardInterrupt, Watchdog, MemoryError):
            raise
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = " <- ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))
            raise Violation("%s: legal operation raised %s: %s [%s]" % (what, type(e).__name__, short(str(e)), where))

    def rejects(self, what, fn, *a, exc=Exception, again=True, **kw):
        """An illegal call: it has to raise an ordinary exception, and to do so again when it is repeated."""
        try:
            r = fn(*a, **kw)
        except (KeyboardInterrupt, Watchdog, MemoryError):
            raise
        except exc as e:
            self.counters["rejections observed"] += 1
            _own(e)
            self.rejections[type(e).__name__] += 1
            if again:
                self.rejects(what + " (repeated after it was refused)", fn, *a, exc=exc, again=False, **kw)
            return e
        except BaseException as e:
            raise Violation("%s: raised %s instead of an ordinary exception" % (what, type(e).__name__))
        raise Violation("%s: was not refused, returned %s" % (what, short(r)))

    def never_true(self, what, fn, *a, again=True, **kw):
        """A verification that must not succeed, and not the second time either: returns False or raises."""
        try:
            r = fn(*a, **kw)
        except (KeyboardInterrupt, Watchdog, MemoryError):
            raise
        except Exception as e:
            self.counters["refused by exception"] += 1
            _own(e)
            self.rejections[type(e).__name__] += 1
            r = e
        else:
            if r is not False:
                raise Violation("%s: accepted (verdict %s)" % (what, short(r)))
            self.counters["refused by verdict False"] += 1
        if again:
            self.never_true(what + " (repeated after it was refused)", fn, *a, again=False, **kw)
        return r

    def check(self, cond, what, *detail):
        self.counters["assertions evaluated"] += 1
        if not cond:
            raise Violation(what + "".join(" | " + short(d, 600) for d in detail))

    def eq(self, got, want, what):
        self.counters["assertions evaluated"] += 1
        if not (type(got) is type(want) or isinstance(got, type(want)) or isinstance(want, type(got))) or got != want:
            raise Violation("%s: got %s, expected %s" % (what, short(got), short(want)))


# -- line coverage of the code under test (sys.monitoring: each line reports once, then is disabled) -------------------
class Lines:
    TOOL = 3

    def __init__(self):
        self.hit = set()
        self.prefix = os.path.join(os.path.realpath(REPO), "pycose") + os.sep

    def start(self):
        m = sys.monitoring
        try:
            m.use_tool_id(self.TOOL, "pycose-mon")
        except ValueError:
            return

        def on_line(code, line):
            if code.co_filename.startswith(self.prefix):
                self.hit.add((code.co_filename[len(self.prefix):], line))
            return m.DISABLE

        m.register_callback(self.TOOL, m.events.LINE, on_line)
        m.set_events(self.TOOL, m.events.LINE)

    def stop(self):
        try:
            sys.monitoring.set_events(self.TOOL, 0)
            sys.monitoring.free_tool_id(self.TOOL)
        except Exception:
            pass


def load_findings(prop):
    path = os.path.join(ROOT, "known_findings.txt")
    out = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                key, _, what = rest.partition(" ")
                out[key.split("=", 1)[1]] = what
    return out


def _alarm(signum, frame):
    raise Watchdog("case exceeded its time limit")


def _shard(mod, tier, seed, worker, workers, deadline, replay, known):
    """Runs every workers-th case; returns everything the monitors of this shard saw."""
    mon = Mon(mod.PROP)
    lines = Lines()
    lines.start()
    out = {"violations": [], "known": {}, "evaluations": 0, "inconclusive": None, "out_of_time": False}
    distinct = set()
    if replay:
        it = [replay]
    else:
        it = mod.cases(tier, random.Random("%s/%s" % (mod.PROP, seed)))
    signal.signal(signal.SIGALRM, _alarm)
    stride = 1
    frac = int(os.environ.get("MON_FRAC", "1"))         # tools/mutate.py: only one case in so many
    for n, case in enumerate(it):
        if n % workers != worker or frac > 1 and not replay and random.Random(n).random() * frac >= 1:
            continue
        if time.time() > deadline:
            out["out_of_time"] = True
            break
        out["evaluations"] += 1
        key = json.dumps(case, sort_keys=True)
        case = json.loads(key)          # what a replay will see
        h = hashlib.blake2b(key.encode(), digest_size=8).digest()
        before = sum(mon.counters.values())
        limit = case.get("timeout", getattr(mod, "CASE_LIMIT", 120))
        signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            mod.run(case, mon)
        except Watchdog:
            signal.setitimer(signal.ITIMER_REAL, 0)
            if getattr(mod, "HANG_IS_VIOLATION", False):
                out["violations"].append((case, "did not terminate within %s s" % limit, None))
            else:
                out["inconclusive"] = "watchdog fired on case %s" % short(case)
        except Violation as v:
            signal.setitimer(signal.ITIMER_REAL, 0)
            if v.key is not None and v.key in known:
                out["known"][v.key] = known[v.key]
            else:
                out["violations"].append((case, str(v), v.key))
        except MemoryError:
            signal.setitimer(signal.ITIMER_REAL, 0)
            out["inconclusive"] = "out of memory"
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:
            signal.setitimer(signal.ITIMER_REAL, 0)
            # the oracles are total on every result the code may legally give, so this is an ill-formed result
            tb = traceback.extract_tb(e.__traceback__)
            where = " <- ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-6:]))
            out["violations"].append((case, "unexpected %s: %s [%s]" % (type(e).__name__, short(str(e)), where), None))
            if os.environ.get("MON_DEBUG"):
                traceback.print_exc()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if sum(mon.counters.values()) > before:
            distinct.add(h)
        if out["evaluations"] >= stride and len(mon.samples) < 4:
            mon.samples.append(json.loads(key))
            stride *= 5
        if len(out["violations"]) >= (1 if os.environ.get("MON_FIRST") else 5):
            break
    lines.stop()
    out.update(counters=mon.counters, sigs=mon.sigs, samples=mon.samples, rejections=mon.rejections, bag=mon.bag,
               distinct=distinct, lines=lines.hit)
    return out


def _forked(args):
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            data = pickle.dumps(_shard(*args))
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stderr.flush()
            os._exit(code)
    os.close(w)
    return pid, r


def run_check(mod, tier, seed, replay=None, limit=None):
    t0 = time.time()
    known = load_findings(mod.PROP)
    budget = limit or getattr(mod, "BUDGET", {}).get(tier, {"quick": 300, "thorough": 3000}[tier])
    deadline = t0 + budget
    workers = 1 if replay else int(os.environ.get("MON_WORKERS") or getattr(mod, "WORKERS", 6))
    parts = []
    inconclusive = None
    if workers == 1:
        parts.append(_shard(mod, tier, seed, 0, 1, deadline, json.load(open(replay))["case"] if replay else None, known))
    else:
        kids = [_forked((mod, tier, seed, k, workers, deadline, None, known)) for k in range(workers)]
        for pid, r in kids:
            with os.fdopen(r, "rb") as f:
                data = f.read()
            _, status = os.waitpid(pid, 0)
            if status != 0 or not data:
                inconclusive = "a worker process died (status %d)" % status
            else:
                parts.append(pickle.loads(data))

    mon = Mon(mod.PROP)
    violations, seen_known, evaluations, out_of_time = [], {}, 0, False
    distinct, hit = set(), set()
    for p in parts:
        violations += p["violations"]
        seen_known.update(p["known"])
        evaluations += p["evaluations"]
        out_of_time |= p["out_of_time"]
        inconclusive = p["inconclusive"] or inconclusive
        mon.counters.update(p["counters"])
        mon.rejections.update(p["rejections"])
        mon.sigs |= p["sigs"]
        mon.samples += p["samples"]
        distinct |= p["distinct"]
        hit |= p["lines"]
        for k, v in p["bag"].items():
            mon.bag.setdefault(k, []).extend(v)
    mon.samples = mon.samples[:12]
    violations = violations[:8]
    if hasattr(mod, "finish") and not replay and not violations:
        try:
            mod.finish(mon)
        except Violation as v:
            violations.append(({"finish": True}, str(v), v.key))

    required = getattr(mod, "REQUIRED", {})
    missing = {k: (mon.counters[k], n) for k, n in required.items() if mon.counters[k] < n}
    for k, what in seen_known.items():
        print("KNOWN-FINDING: property=%s %s" % (mod.PROP, what))
    rc = 0
    if violations:
        rc = 1
        rdir = os.path.join(EVIDENCE, "replays")
        os.makedirs(rdir, exist_ok=True)
        for i, (case, what, key) in enumerate(violations):
            path = os.path.join(rdir, "%s-%s-%d-%d.json" % (mod.PROP, tier, seed, i))
            with open(path, "w") as f:
                json.dump({"property": mod.PROP, "tier": tier, "seed": seed, "what": what, "case": case,
                           "rerun": "cd /verif && ./check %s --replay %s" % (mod.PROP, path)}, f, indent=1)
            print("  %s: %s" % (mod.PROP, what))
            print("  case: %s" % short(case, 1500))
            print("VIOLATION property=%s replay=%s" % (mod.PROP, path))
    elif not replay and (missing or inconclusive):
        rc = 2
        print("INCONCLUSIVE property=%s %s %s" % (mod.PROP, inconclusive or "", missing or ""))
    wall = time.time() - t0
    if not replay:
        files = Counter(f for f, _ in hit)
        cov = {
            "evaluations": evaluations,
            "distinct_nontrivial": len(distinct),
            "rule": mod.RULE,
            "samples": mon.samples,
            "events_observed": dict(sorted(mon.counters.items())),
            "distinct_event_signatures": len(mon.sigs),
            "exception_types_observed": dict(mon.rejections.most_common(20)),
            "pycose_lines_executed": len(hit),
            "pycose_lines_by_file": dict(sorted(files.items())),
            "stopped_by_time_budget": out_of_time,
            "workers": workers,
        }
        ev = {"property": mod.PROP, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
              "assumptions": getattr(mod, "ASSUMPTIONS", []) + [
                  "held on the executions listed, not proved beyond them",
                  "trusted: CPython, hashlib/hmac, OpenSSL through the cryptography package, and the oracle code in /verif/mon"],
              "wall_s": round(wall, 2), "violations": len(violations)}
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, mod.PROP + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    if os.environ.get("MON_LINES"):
        with open(os.environ["MON_LINES"], "w") as f:
            json.dump(sorted(hit), f)
    print("%s tier=%s seed=%d cases=%d distinct=%d events=%d signatures=%d lines=%d violations=%d wall=%.1fs" % (
        mod.PROP, tier, seed, evaluations, len(distinct), sum(mon.counters.values()), len(mon.sigs), len(hit),
        len(violations), wall))
    return rc
