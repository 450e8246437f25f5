#!/usr/bin/env python3
"""run.py <property id>: runs the check of one property (tier from VERIF_TIER)."""
import glob, importlib.util, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1].upper()
    if len(sys.argv) > 2 and sys.argv[2] == "--thorough":
        os.environ["VERIF_TIER"] = "thorough"
    fs = glob.glob(os.path.join(HERE, "checks", pid.lower() + "_*.py"))
    if len(fs) != 1:
        print("no check for", pid)
        sys.exit(2)
    spec = importlib.util.spec_from_file_location("check_" + pid.lower(), fs[0])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    m.main()


main()
