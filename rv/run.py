import importlib
import os
import random
import sys

from . import core


def load(pid):
    return importlib.import_module(f"rv.props.{pid.lower()}")


def selftest():
    """Every check imports and generates valid workload; nothing of pycaption is judged here."""
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "props")
    for f in sorted(os.listdir(here)):
        if f.startswith("c") and f.endswith(".py"):
            mod = load(f[:-3])
            if hasattr(mod, "random_case"):
                for i in range(20):
                    mod.random_case(random.Random(i), "quick")
    print("selftest ok")
    return 0


def main():
    core.setup_path()
    if sys.argv[1] == "--selftest":
        return selftest()
    return core.main(load(sys.argv[1]), sys.argv[2:])


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
