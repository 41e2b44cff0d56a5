#!/usr/bin/env python3
"""python3 check.py <PROPERTY>   (VERIF_TIER=quick|thorough, VERIF_SEED)"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import core, families

if __name__ == "__main__":
    if sys.argv[1:] == ["--setup"]:
        sys.exit(core.setup())
    if len(sys.argv) != 2 or sys.argv[1] not in families.CHECKS:
        print("usage: check.py " + "|".join(sorted(families.CHECKS)), file=sys.stderr)
        sys.exit(2)
    try:
        rc = core.main(sys.argv[1], families.CHECKS[sys.argv[1]])
    except Exception as e:  # an error of the check, never a verdict
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
