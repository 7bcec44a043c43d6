"""Pristine-process oracle.

`python -m rv.zygote` imports pycaption and then only ever forks: every request is served by a child of its own, so
every read or write it does is the first operation of its process. Zygotes are started with different hash seeds.

Client side: get(hashseed).ask({"op": "read", ...}) -> JSON answer.
"""
import base64
import json
import os
import pickle
import re
import signal
import subprocess
import sys

CHILD_WALL_S = 60


# ------------------------------------------------------------------ what a request does (in the forked child)
def exc_repr(e):
    return [type(e).__name__, re.sub(r"0x[0-9a-f]+", "0x", str(e))]


def do_read(doc):
    """-> ["ok", dump] | ["exc", type, message]"""
    from . import model
    from .gen import docs
    try:
        cs = docs.reader(doc).read(doc["doc"], **(doc.get("kw") or {}))
    except Exception as e:
        return ["exc"] + exc_repr(e)
    return ["ok", model.dump(cs)]


def source(src):
    """{"set": model JSON} | {"doc": read case} | {"pickle": base64} -> CaptionSet"""
    if "pickle" in src:
        return pickle.loads(base64.b64decode(src["pickle"]))
    from . import model
    from .gen import docs
    if "set" in src:
        return model.build(src["set"])
    d = src["doc"]
    return docs.reader(d).read(d["doc"], **(d.get("kw") or {}))


def do_write(src, fmt, opts):
    """-> ["ok", output] | ["exc", type, message]"""
    from . import writers
    cs = source(src)
    try:
        return ["ok", writers.make(fmt, opts).write(cs, **writers.write_kw(fmt, opts))]
    except Exception as e:
        return ["exc"] + exc_repr(e)


def serve(req):
    if req["op"] == "read":
        return do_read(req["doc"])
    if req["op"] == "write":
        return do_write(req["src"], req["fmt"], req.get("opts"))
    raise ValueError(req["op"])


def _child(req, fd):
    signal.alarm(CHILD_WALL_S)
    try:
        ans = serve(req)
    except BaseException as e:
        ans = ["err", repr(e)[:500]]
    data = json.dumps(ans).encode() + b"\n"
    while data:
        data = data[os.write(fd, data):]


def main():
    from . import core
    core.setup_path()
    from . import model, writers  # noqa: F401
    from .gen import docs  # noqa: F401
    out = os.dup(1)
    os.dup2(2, 1)
    sys.setrecursionlimit(3000)
    for line in sys.stdin.buffer:
        req = json.loads(line)
        pid = os.fork()
        if pid == 0:
            try:
                _child(req, out)
            finally:
                os._exit(0)
        _, st = os.waitpid(pid, 0)
        if st:
            os.write(out, json.dumps(["died", st]).encode() + b"\n")


# ------------------------------------------------------------------ client
class Zygote:
    def __init__(self, hashseed):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1")
        self.p = subprocess.Popen([sys.executable, "-m", "rv.zygote"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env=env)

    def ask(self, req):
        self.p.stdin.write(json.dumps(req).encode() + b"\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("the pristine-process server died")
        ans = json.loads(line)
        if ans[0] == "err":
            raise RuntimeError("pristine process: " + ans[1])
        return ans


_live = {}


def get(hashseed):
    key = (os.getpid(), hashseed)
    if key not in _live:
        _live[key] = Zygote(hashseed)
    return _live[key]


if __name__ == "__main__":
    main()
