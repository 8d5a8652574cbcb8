#!/usr/bin/env python3
"""run.py check ID [quick|thorough] | setup"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lk import common as c


def checks():
    from lk import bus, core, edge
    return {"B01": bus.bus, "B02": bus.bus, "B03": bus.bus, "B04": bus.ports, **{k: edge.edge for k in edge.CHECK}, **{k: core.hist for k in core.SPOIL}}


def main():
    if sys.argv[1] == "setup":
        for crate, flags in (("bus", "--cfg lk_verif"), ("busreal", ""), ("edge", ""), ("b/drv", "")):
            c.build(crate, flags)
        return 0
    prop = sys.argv[2]
    tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick")
    ck = c.Check(prop, tier, int(os.environ.get("VERIF_SEED", "1")))
    try:
        checks()[prop](ck)
    except c.ToolError as e:
        print(f"# tool error: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    return ck.finish()


sys.exit(main())
