"""python3-vt -m rtsa check <property> [--tier quick|thorough]"""
import importlib
import os
import sys
import traceback

sys.setrecursionlimit(20000)


def known_findings():
    """Keys of the listed (unrepaired) findings per property."""
    from .report import VERIF
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: property="):
                head, _, key = line[len("finding: property="):].strip().partition(" ")
                out.setdefault(head, set()).add(key.split(" :: ")[0].strip())
    return out


def main(argv):
    from .report import Ctx, VERIF
    from .checks import CHECKS
    if len(argv) < 2 or argv[0] != "check":
        print(__doc__)
        return 2
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(prop, tier, seed)
    ev = os.environ.get("RTSA_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(ev, exist_ok=True)
    mod, fn = CHECKS[prop]
    try:
        getattr(importlib.import_module(f"rtsa.checks.{mod}"), fn)(ctx)
    except Exception as ex:  # analysis error: no verdict (unless a violation was found)
        tb = traceback.format_exc().strip().splitlines()
        ctx.maybe("analysis", " | ".join(tb[-7:]))
        if os.environ.get("RTSA_DEBUG"):
            traceback.print_exc()
    return ctx.finish(ev, known_findings().get(prop, set()))


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
