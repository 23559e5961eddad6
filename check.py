#!/usr/bin/env python3
"""python3 check.py <PROPERTY> [quick|thorough] -- decide one property of /repo
from its current source (static analysis only; nothing of /repo is executed)."""

import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from sa import report  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module("sa.props." + pid.lower())
    return report.run(
        pid, mod.check, mod.TITLE, mod.RULE, tier, seed, getattr(mod, "ASSUMPTIONS", ()),
        getattr(mod, "LEVEL", "other"),
    )


if __name__ == "__main__":
    # deep recursion over nested terms: run on a thread with a large stack
    import threading

    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(rc[0] if rc else 2)
