#!/usr/bin/env python3
"""check.py ID: runs the check of one property. VERIF_TIER=quick|thorough, VERIF_SEED=n."""
import importlib, os, subprocess, sys, threading, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
sys.dont_write_bytecode = True
import mbt

def watch(ctx, after):
    """Once something was found, looking further has its limits: broken code may make every wait run out."""
    end = time.time() + after
    while True:
        time.sleep(3)
        if time.time() > end and ctx.violations:
            ctx.finish()
            sys.stdout.flush()
            subprocess.run(["pkill", "-KILL", "-P", str(os.getpid())])
            os._exit(1)

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = mbt.Ctx(prop, tier, seed)
    if tier == "quick": threading.Thread(target=watch, args=(ctx, 400), daemon=True).start()
    try:
        importlib.import_module(prop).run(ctx)
        rc = ctx.finish()
    except mbt.ToolError as e:
        print("TOOL ERROR:", e)
        ctx.finish()
        rc = 1 if ctx.violations else 2
    except Exception:
        traceback.print_exc()
        rc = 1 if ctx.violations else 2
    sys.exit(rc)

main()
