import os, sys, traceback
from . import core

if __name__ == "__main__":
    if sys.argv[1] == "replay":
        sys.exit(core.replay(sys.argv[2]))
    if sys.argv[1] == "setup":
        from . import build
        for v in ("asan", "release", "stress", "balance"):
            build.build(v)
        sys.exit(0)
    try:
        sys.exit(core.main(sys.argv[1], os.environ.get("VERIF_TIER") or (sys.argv[2] if len(sys.argv) > 2 else "quick"),
                      int(os.environ.get("VERIF_SEED", "1") or 1)))
    except Exception:
        traceback.print_exc()
        sys.exit(2)
