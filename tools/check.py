#!/usr/bin/env python3
"""check.py <property> [--thorough]: decides one property of properties.jsonl. See DESIGN.md."""
import argparse, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import checks

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--thorough", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.thorough or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    ctx = Ctx(a.prop, tier, int(os.environ.get("VERIF_SEED", "1")))
    try:
        level = checks.CHECKS[a.prop](ctx)
        rc = ctx.finish(level)
    except ToolError as ex:
        print("ERROR of the check itself: %s" % ex, flush=True)
        rc = ctx.finish("model_checking") if ctx.findings else 2
        rc = rc or 2
    except Exception:
        traceback.print_exc()
        rc = 2
    ctx.pool.shutdown(wait=False, cancel_futures=True)
    ctx.cleanup()
    sys.stdout.flush()
    os._exit(rc)

main()
