"""Development only: a short, fail-fast run of several checks in one process (used by mutate.py).
   fast.py SECONDS CNN...   exit 1 and a line "HIT CNN kind msg" at the first violation"""
import itertools
import os
import pickle
import random
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rv import core, run  # noqa: E402

core.setup_path()
sec = float(sys.argv[1])
rc = 0
cache = "/tmp/mutres/sys"
os.makedirs(cache, exist_ok=True)
for pid in sys.argv[2:]:
    mod = run.load(pid)
    known = core.load_known(pid)
    m = core.Monitor(pid, known)
    core._limits()
    f = f"{cache}/{pid}.pkl"
    if os.path.exists(f):
        cases = pickle.load(open(f, "rb"))
    else:
        cases = list(itertools.islice(mod.systematic("quick"), 60000)) if hasattr(mod, "systematic") else []
        random.Random(1).shuffle(cases)
        cases = cases[:3000]
        pickle.dump(cases, open(f + str(os.getpid()), "wb"))
        os.replace(f + str(os.getpid()), f)
    end = time.process_time() + sec
    wall = time.monotonic() + (1 if pid in ("C09", "C10") else 3) * sec
    i = 0
    v = None
    while time.process_time() < end and time.monotonic() < wall:
        for c in ([cases[i]] if i < len(cases) else []) + [mod.random_case(random.Random(f"1:{pid}:{i}"), "quick")]:
            v = core.run_case(mod, c, m)
            if v:
                break
        i += 1
        if v:
            break
    print(pid, i, file=sys.stderr)
    if v is None and hasattr(mod, "finish") and pid in ("C15", "C14"):
        try:
            mod.finish(m, "quick", 1)
        except core.Violation as e:
            v = {"kind": e.kind, "msg": str(e)}
    if v:
        print("HIT", pid, v["kind"], v["msg"][:150].replace("\n", " "))
        rc = 1
        break
sys.exit(rc)
