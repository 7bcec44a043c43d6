"""Runtime-monitoring core: event tap at the public API boundary, counters,
three-valued verdicts, parallel deterministic workload driver, shrinking replay.

A check module (rv/props/cNN.py) provides:
  ID, RULE, ASSUMPTIONS
  PLAN = {"quick": n_random, "thorough": n_random}
  systematic(tier) -> iterable of JSON cases           (optional)
  random_case(rng, tier) -> JSON case                  (optional)
  run(case, m) -> None           drives the SUT through m.call, m.fail(..) on violation
  finish(m, tier)                (optional, parent: global monitors)
  FLOORS = {"counter": minimum}  (inconclusive below)
"""
import hashlib
import json
import logging
import os
import pickle
import random
import resource
import signal
import sys
import time
import traceback
import warnings
from collections import Counter, defaultdict

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RV_REPO", "/repo")

CASE_CPU_S = 40.0
MEM_BYTES = 6 << 30
N_WORKERS = int(os.environ.get("RV_WORKERS", "8"))


def setup_path():
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import pycaption
    real = os.path.realpath(pycaption.__file__)
    if not real.startswith(os.path.realpath(REPO) + "/"):
        raise SystemExit(f"pycaption imported from {real}, not {REPO}")


class Violation(Exception):
    def __init__(self, kind, msg, detail=None):
        super().__init__(f"{kind}: {msg}")
        self.kind, self.msg, self.detail = kind, msg, detail


class KnownFinding(Exception):
    def __init__(self, kf, msg):
        super().__init__(msg)
        self.kf, self.msg = kf, msg


class Watchdog(BaseException):
    pass


class Outcome:
    __slots__ = ("ok", "value", "exc")

    def __init__(self, ok, value=None, exc=None):
        self.ok, self.value, self.exc = ok, value, exc

    @property
    def exc_name(self):
        return type(self.exc).__name__ if self.exc is not None else None


def stable_hash(obj):
    s = json.dumps(obj, sort_keys=True, ensure_ascii=True, default=str)
    return hashlib.blake2b(s.encode(), digest_size=8).hexdigest()


class Monitor:
    """What one worker observed."""

    def __init__(self, prop, known_ids=()):
        self.prop = prop
        self.counts = Counter()
        self.sets = defaultdict(set)
        self.samples = []
        self.violations = []
        self.known_hits = Counter()
        self.known_msgs = {}
        self.errors = []
        self.known_ids = set(known_ids)
        self.case_events = 0
        self.trace = []
        self.keep_trace = False
        self.cov = set()
        self.nontrivial = False

    # ---- observation -------------------------------------------------
    def call(self, name, fn, *a, **k):
        """Observe one client-boundary operation: call event, return event."""
        self.counts["events"] += 2
        self.counts["op:" + name] += 1
        self.case_events += 1
        if self.keep_trace:
            self.trace.append(["call", name, _brief(a), _brief(k)])
        try:
            v = fn(*a, **k)
        except Exception as e:
            self.counts[f"raise:{name}:{type(e).__name__}"] += 1
            if self.keep_trace:
                self.trace.append(["raise", name, repr(e)[:300]])
            return Outcome(False, exc=e)
        if self.keep_trace:
            self.trace.append(["return", name, _brief(v)])
        return Outcome(True, v)

    def must(self, name, fn, *a, **k):
        """As call, but raising is itself a violation."""
        o = self.call(name, fn, *a, **k)
        if not o.ok:
            tb = traceback.extract_tb(o.exc.__traceback__)
            where = [f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in tb[-3:]]
            self.fail("unexpected-exception", f"{name} raised {o.exc!r}"[:500],
                      {"where": where})
        return o.value

    def state(self, key, *values):
        """Record a distinct observed (abstract) state."""
        self.sets[key].add(stable_hash(values) if len(repr(values)) > 40 else repr(values))

    def hit(self, name, n=1):
        self.counts[name] += n

    # ---- verdicts ----------------------------------------------------
    def fail(self, kind, msg, detail=None):
        raise Violation(kind, msg, detail)

    def check(self, cond, kind, msg="", detail=None):
        self.counts["checks"] += 1
        if not cond:
            raise Violation(kind, msg() if callable(msg) else msg, detail)

    def eq(self, got, want, kind, detail=None):
        self.counts["checks"] += 1
        if got != want:
            raise Violation(kind, f"observed {_brief(got, 600)} expected {_brief(want, 600)}", detail)

    def known(self, kf, msg):
        """A failure that matches the mechanism of finding `kf`."""
        if kf not in self.known_ids:
            raise Violation(kf, "unlisted: " + msg)
        self.known_hits[kf] += 1
        self.known_msgs.setdefault(kf, msg[:300])

    def dump(self):
        return dict(counts=self.counts, sets=dict(self.sets), samples=self.samples,
                    violations=self.violations, known_hits=self.known_hits,
                    known_msgs=self.known_msgs, errors=self.errors, cov=self.cov)

    def merge(self, d):
        self.counts.update(d["counts"])
        for k, v in d["sets"].items():
            self.sets[k] |= v
        self.samples += d["samples"]
        self.violations += d["violations"]
        self.known_hits.update(d["known_hits"])
        for k, v in d["known_msgs"].items():
            self.known_msgs.setdefault(k, v)
        self.errors += d["errors"]
        self.cov |= d["cov"]


def _brief(v, n=200):
    r = repr(v)
    return r if len(r) <= n else r[:n] + f"...({len(r)})"


# ---------------------------------------------------------------- coverage
def start_coverage(cov):
    mon = getattr(sys, "monitoring", None)
    if mon is None:
        return
    tool = mon.PROFILER_ID
    root = os.path.realpath(REPO) + "/pycaption/"
    try:
        mon.use_tool_id(tool, "rv")
    except ValueError:
        return

    def on_line(code, line):
        f = code.co_filename
        if f.startswith(root):
            cov.add((f[len(root):], line))
        return mon.DISABLE
    mon.register_callback(tool, mon.events.LINE, on_line)
    mon.set_events(tool, mon.events.LINE)


# ---------------------------------------------------------------- running
def _alarm(_sig, _frm):
    raise Watchdog()


def run_case(mod, case, m):
    """Run one case; returns None or a violation record."""
    m.case_events = 0
    m.nontrivial = True
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    try:
        mod.run(case, m)
        return None
    except Violation as v:
        return {"kind": v.kind, "msg": str(v)[:2000], "detail": v.detail, "case": case}
    except KnownFinding as k:
        try:
            m.known(k.kf, k.msg)
            return None
        except Violation as v:
            return {"kind": v.kind, "msg": str(v)[:2000], "detail": None, "case": case}
    except Watchdog:
        return {"kind": "no-return", "case": case, "detail": None,
                "msg": f"no-return: operation consumed {CASE_CPU_S}s CPU without returning "
                       f"(normal cost: milliseconds)"}
    except MemoryError:
        return {"kind": "memory", "case": case, "detail": None,
                "msg": "memory: operation exceeded the memory limit"}
    except RecursionError:
        return {"kind": "recursion", "case": case, "detail": None,
                "msg": "recursion limit exceeded\n" + traceback.format_exc()[-800:]}
    except Exception:
        tb = traceback.format_exc()
        if m.case_events:
            # the oracle could not even interpret what it observed
            return {"kind": "uninterpretable", "case": case, "detail": None,
                    "msg": "uninterpretable: monitor could not interpret the observed result\n" + tb[-1500:]}
        m.errors.append("harness error before any event: " + tb[-1500:])
        return None
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def _limits():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_BYTES, MEM_BYTES))
    except (ValueError, OSError):
        pass
    signal.signal(signal.SIGVTALRM, _alarm)
    sys.setrecursionlimit(3000)


def worker(mod, tier, seed, w, nw, deadline, known_ids, out_fd, max_viol=3):
    m = Monitor(mod.ID, known_ids)
    _limits()
    start_coverage(m.cov)
    n_rand = mod.PLAN[tier]

    def cases():
        if hasattr(mod, "systematic"):
            for i, c in enumerate(mod.systematic(tier)):
                if i % nw == w:
                    yield "sys", i, c
        if hasattr(mod, "random_case"):
            for i in range(w, n_rand, nw):
                rng = random.Random(f"{seed}:{mod.ID}:{i}")
                case = mod.random_case(rng, tier)
                if i % 6 == 5 and isinstance(case, dict) and isinstance(case.get("cs"), dict):
                    case["cs"]["alias"] = 1     # see model.build
                    m.counts["sets_with_shared_parts"] += 1
                yield "rnd", i, case

    try:
        for kind, i, case in cases():
            if time.monotonic() > deadline:
                m.counts["stopped_at_time_cap"] += 1
                break
            m.counts["cases"] += 1
            m.counts["cases:" + kind] += 1
            h = stable_hash(case)
            v = run_case(mod, case, m)
            if m.nontrivial:
                m.sets["cases"].add(h)
            if len(m.samples) < 2 and m.nontrivial and w < 2 and i % 3 == 0:
                m.samples.append(case)
            if v is not None:
                v["index"] = [kind, i]
                m.violations.append(v)
                if len(m.violations) >= max_viol:
                    break
    except Exception:
        m.errors.append("generator error: " + traceback.format_exc()[-1500:])
    data = pickle.dumps(m.dump())
    with os.fdopen(out_fd, "wb") as f:
        f.write(data)


def load_known(prop):
    """(known ids -> text) for this property."""
    ids = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith("known:"):
                continue
            parts = dict(x.split("=", 1) for x in line.split()[1:3])
            if parts.get("property") == prop:
                ids[parts["id"]] = line.split(None, 3)[3]
    return ids


def drive(mod, tier, seed, cap_s):
    known = load_known(mod.ID)
    total = Monitor(mod.ID, known)
    deadline = time.monotonic() + cap_s
    pids = []
    for w in range(N_WORKERS):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                for _, rr, _w in pids:
                    os.close(rr)
                worker(mod, tier, seed, w, N_WORKERS, deadline, known, wr)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(wr)
        pids.append((pid, r, w))
    import selectors
    sel = selectors.DefaultSelector()
    bufs = {}
    for pid, r, w in pids:
        os.set_blocking(r, False)
        bufs[r] = bytearray()
        sel.register(r, selectors.EVENT_READ)
    open_n = len(pids)
    hard = deadline + 60
    while open_n and time.monotonic() < hard:
        for key, _ in sel.select(timeout=1.0):
            try:
                b = os.read(key.fd, 1 << 20)
            except BlockingIOError:
                continue
            if b:
                bufs[key.fd] += b
            else:
                sel.unregister(key.fd)
                open_n -= 1
    for pid, r, w in pids:
        if not bufs[r]:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        _, st = os.waitpid(pid, 0)
        try:
            total.merge(pickle.loads(bytes(bufs[r])))
        except Exception:
            total.errors.append(f"worker {w} died without a report (status {st})")
        os.close(r)
    if hasattr(mod, "finish"):
        _limits()
        try:
            mod.finish(total, tier, seed)
        except Violation as v:
            total.violations.append({"kind": v.kind, "msg": str(v)[:2000], "detail": v.detail,
                                     "case": getattr(v, "case", None), "index": ["finish", 0]})
        except Exception:
            total.errors.append("finish error: " + traceback.format_exc()[-1500:])
    return total, known


# ---------------------------------------------------------------- shrinking
def shrink(mod, case, kind, known_ids, budget_s=8.0):
    end = time.monotonic() + budget_s
    valid = getattr(mod, "valid", lambda c: True)

    def bad(c):
        try:
            if not valid(c):
                return False
        except Exception:
            return False
        m = Monitor(mod.ID, known_ids)
        v = run_case(mod, c, m)
        return v is not None and v["kind"] == kind

    def variants(x):
        if isinstance(x, list):
            n = len(x)
            if n > 3:
                yield x[: n // 2]
                yield x[n // 2:]
            for i in range(n):
                yield x[:i] + x[i + 1:]
            for i in range(n):
                for y in variants(x[i]):
                    yield x[:i] + [y] + x[i + 1:]
        elif isinstance(x, dict):
            for k in list(x):
                for y in variants(x[k]):
                    d = dict(x)
                    d[k] = y
                    yield d
            for k in list(x):
                if x[k] is not None and not isinstance(x[k], (int, float, str, bool, list)):
                    d = dict(x)
                    d[k] = None
                    yield d
        elif isinstance(x, str):
            if len(x) > 1:
                yield x[: len(x) // 2]
                yield x[len(x) // 2:]
                for i in range(min(len(x), 12)):
                    yield x[:i] + x[i + 1:]
        elif isinstance(x, bool) or x is None:
            return
        elif isinstance(x, int):
            if abs(x) > 1:
                yield x // 2
    cur = case
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for c in variants(cur):
            if time.monotonic() > end:
                break
            if bad(c):
                cur = c
                progress = True
                break
    return cur


# ---------------------------------------------------------------- main
def main(mod, argv=None):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--replay")
    ap.add_argument("--no-shrink", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.monotonic()
    try:
        seed = int(a.seed)
    except ValueError:
        seed = int(hashlib.blake2b(a.seed.encode(), digest_size=4).hexdigest(), 16)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    if a.replay:
        return replay(mod, a.replay)
    cap = getattr(mod, "CAP", {"quick": 150, "thorough": 700})[tier]
    total, known = drive(mod, tier, seed, cap)
    evid = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(evid, "replays"), exist_ok=True)

    violated = bool(total.violations)
    floors = getattr(mod, "FLOORS", {})
    low = []
    for k, n in floors.items():
        have = total.counts.get(k, 0) if k in total.counts else len(total.sets.get(k, ()))
        if have < n:
            low.append(f"{k}: {have} < {n}")

    counts = dict(sorted(total.counts.items()))
    lines = Counter(f for f, _ in total.cov)
    coverage = {
        "evaluations": counts.get("cases", 0),
        "distinct_nontrivial": len(total.sets.get("cases", ())),
        "rule": mod.RULE,
        "samples": [_trim(s) for s in total.samples[:3]],
        "events_observed": counts.get("events", 0),
        "oracle_checks": counts.get("checks", 0),
        "counters": counts,
        "distinct_states": {k: len(v) for k, v in sorted(total.sets.items()) if k != "cases"},
        "sut_lines_executed": dict(sorted(lines.items())),
        "known_finding_hits": dict(total.known_hits),
        "verdict": "violated" if violated else ("inconclusive" if (low or total.errors) else "held"),
    }
    ev = {"property": mod.ID, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": coverage, "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
          "wall_s": 0.0, "violations": len(total.violations)}

    out = []
    for kf, text in known.items():
        hits = total.known_hits.get(kf, 0)
        if hits:
            print(f"KNOWN-FINDING: property={mod.ID} {kf} {text} (observed {hits}x this run)")
    if violated:
        seen = set()
        _limits()
        for v in total.violations:
            if v["kind"] in seen or len(seen) >= 3:
                continue
            seen.add(v["kind"])
            rp = os.path.join(evid, "replays", f"{mod.ID}-{len(seen)}.json")
            small = v["case"]
            if small is not None and not a.no_shrink:
                try:
                    small = shrink(mod, v["case"], v["kind"], known)
                except Exception:
                    small = v["case"]
            trace, msg2 = [], None
            if small is not None:
                m = Monitor(mod.ID, known)
                m.keep_trace = True
                vv = run_case(mod, small, m)
                trace = m.trace
                msg2 = vv and vv["msg"]
            with open(rp, "w") as f:
                json.dump({"property": mod.ID, "kind": v["kind"], "message": v["msg"],
                           "message_shrunk": msg2, "detail": v["detail"], "index": v.get("index"),
                           "seed": seed, "tier": tier, "case": v["case"], "shrunk": small,
                           "trace": trace,
                           "replay_cmd": f"/verif/check {mod.ID} --replay {rp}"},
                          f, indent=1, default=str)
            out.append(f"VIOLATION property={mod.ID} replay={rp}")
            print(f"  {v['kind']}: {(msg2 or v['msg'])[:700]}")
    ev["wall_s"] = round(time.monotonic() - t0, 2)
    with open(os.path.join(evid, f"{mod.ID}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for line in out:
        print(line)
    print(f"{mod.ID} [{tier} seed={seed}] {coverage['verdict']}: cases={coverage['evaluations']} "
          f"distinct={coverage['distinct_nontrivial']} events={coverage['events_observed']} "
          f"checks={coverage['oracle_checks']} wall={ev['wall_s']}s")
    if violated:
        return 1
    if total.errors or low:
        for e in total.errors[:3]:
            print("INCONCLUSIVE (harness):", e)
        for x in low:
            print("INCONCLUSIVE: too few observations:", x)
        return 2
    return 0


def _trim(x, n=600):
    s = json.dumps(x, ensure_ascii=True, default=str)
    return x if len(s) <= n else s[:n] + "..."


def replay(mod, path):
    d = json.load(open(path))
    _limits()
    rc = 0
    for name in ("shrunk", "case"):
        if d.get(name) is None:
            continue
        m = Monitor(mod.ID, load_known(mod.ID))
        m.keep_trace = True
        v = run_case(mod, d[name], m)
        print(f"--- {name}: {json.dumps(d[name], default=str)[:3000]}")
        for t in m.trace:
            print("   ", t)
        print("   =>", v["msg"] if v else "holds")
        if v:
            rc = 1
    return rc
