#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import vlib, props


def main():
    a = argparse.ArgumentParser()
    a.add_argument("prop")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    a.add_argument("--replay")
    o = a.parse_args()
    ctx = vlib.Ctx(o.prop, "thorough" if o.tier == "thorough" else "quick", o.seed)
    try:
        level, notes = props.run(ctx, json.load(open(o.replay)) if o.replay else None)
        rc = ctx.finish(level, notes)
    except vlib.CheckError as e:
        # what was established before still counts
        if ctx.viol:
            rc = ctx.finish("model_checking")
            if rc == 1:
                return 1
        print("CHECK-ERROR property=%s %s" % (o.prop, e))
        return 2
    return rc


if __name__ == "__main__":
    sys.exit(main())
