#!/usr/bin/env python3
"""check.py <property-id>: decide one property for the code in /repo's working tree (see DESIGN.md)."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vf

FAMILY = {}
for m in ("checks_text", "checks_num", "checks_containers", "checks_vocab", "checks_conc", "checks_meta"):
    if os.path.exists(os.path.join(vf.VERIF, "lib", m + ".py")):
        FAMILY.update(importlib.import_module(m).CHECKS)

def main():
    if len(sys.argv) != 2 or sys.argv[1] not in FAMILY:
        print("usage: check.py ID   with ID in", " ".join(sorted(FAMILY)))
        return 2
    prop = sys.argv[1]
    ctx = vf.Ctx(prop)
    try:
        try:
            FAMILY[prop](ctx)
        except vf.Stop:
            pass
        return ctx.finish()
    except vf.MachineryError as e:
        print("CHECK-ERROR property=%s (no verdict): %s" % (prop, e), file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        print("CHECK-ERROR property=%s (no verdict)" % prop, file=sys.stderr)
        return 2

if __name__ == "__main__":
    sys.exit(main())
