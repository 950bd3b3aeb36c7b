#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property on /repo's working tree."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import threading
threading.stack_size(512 << 20)


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = "thorough" if "thorough" in sys.argv[2:] or "--thorough" in sys.argv[2:] else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from analysis import core, props
    if os.environ.get("VPROG"):
        import json
        from analysis.mir import Prog
        d = os.environ["VPROG"]
        p = Prog(json.load(open(d + "/av1enc-bin.json")))
        l = Prog(json.load(open(d + "/av1enc-lib.json")))
    else:
        p, l = core.load()
    ctx = core.Ctx(prop, tier, seed, p, l)
    ctx.t0 = t0
    live.append((ctx, core.Deadline))
    f, explain = props.get(prop)
    try:
        f(ctx)
    except core.Deadline:
        pass
    except Exception as e:
        ctx.undec("rule", "internal: %s: %s" % (type(e).__name__, e))
        if os.environ.get("VDEBUG"):
            import traceback
            traceback.print_exc()
    return core.finish(ctx, t0, explain)


rc = [1]
live = []


def run():
    try:
        rc[0] = main()
    except SystemExit as e:
        rc[0] = e.code
    except BaseException:
        import traceback
        traceback.print_exc()
        rc[0] = 2


t = threading.Thread(target=run)
t.start()
while t.is_alive():
    t.join(1)
    if live and t.is_alive() and live[0][0].overdue():
        import ctypes
        ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(live[0][1]))
sys.stdout.flush()
os._exit(rc[0])
