#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]

Decides one property from /repo's current source (never by running it) and exits
0 (holds), or 1 with `VIOLATION property=<id> replay=<report>`."""
import os, sys
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
import json, time, traceback, importlib, threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, HERE)


def main():
    from ctx import Ctx, registry
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    ctx = Ctx(pid, tier)
    try:
        fn, level = registry()[pid]
        ctx.level = level
        ctx.load()
        fn(ctx)
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        ctx.violation("analysis-error", "check.py", "the analysis did not complete (fail closed): " + traceback.format_exc()[-3000:])
    return ctx.finish(time.time() - t0)


if __name__ == "__main__":
    sys.setrecursionlimit(100000)
    threading.stack_size(512 * 1024 * 1024)
    rc = [1]

    def run():
        rc[0] = main()
    t = threading.Thread(target=run)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
