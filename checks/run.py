"""Entry point: run.py <property> [quick|thorough] [--replay file]"""

from __future__ import annotations

import json
import os
import sys

from vlib import harness, tlc

MODULES = {
    "R": "raid",
    "D": "disk",
    "M": "md",
    "N": "vinum",
    "T": "thin",
    "L": "lvm",
    "S": "vss",
    "F": "ddf",
    "D06": "streams",
    "G01": "streams",
    "G02": "reject",
}


def main() -> int:
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith("-") else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    harness.import_guard()
    mod = __import__(MODULES.get(prop) or MODULES[prop[0]])
    ck = harness.Check(prop, tier, seed)
    if "--replay" in sys.argv:
        ck.replaying = True
        bad = 0
        for v in json.load(open(sys.argv[sys.argv.index("--replay") + 1])):
            r = harness.run_one(mod.REPLAY[v["kind"]], v["case"], 120)
            print(v["kind"], "->", r or "holds")
            bad += bool(r)
        return 1 if bad else 0
    try:
        getattr(mod, prop)(ck)
    except tlc.TLCError as e:
        print(e, file=sys.stderr)
        return 3
    return ck.finish(exhaustive=getattr(ck, "exhaustive", False))


if __name__ == "__main__":
    sys.exit(main())
