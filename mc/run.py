"""run.py ID [family...] | --replay FILE | --list"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import env  # noqa: E402,F401
import engine  # noqa: E402

import glob  # noqa: E402
import importlib  # noqa: E402

for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "c_*.py"))):
    importlib.import_module(os.path.basename(f)[:-3])


def main():
    a = sys.argv[1:]
    if a[:1] == ["--replay"]:
        return engine.replay(a[1])
    if a[:1] == ["--list"]:
        print("\n".join(sorted(engine.REGISTRY)))
        return 0
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    return engine.run(a[0], tier, seed, a[1:])


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
