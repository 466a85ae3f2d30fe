#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's working tree. VERIF_TIER=quick|thorough."""
import sys, os, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vrun, vbuild, props

def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__); return 2
    if a[0] == "build":
        import glob
        for h in sorted(glob.glob(os.path.join(vbuild.VERIF, "harness", "h_*.c"))):
            n = os.path.basename(h)[:-2]
            print(vbuild.build(n))
        return 0
    if len(a) >= 3 and a[1] == "--replay":
        return vrun.replay(a[2])
    p = a[0]
    c = vrun.Check(p, getattr(props, "LEVEL", {}).get(p, "model_checking"))
    getattr(props, p)(c)
    return c.finish()

if __name__ == "__main__":
    sys.exit(main())
