#!/usr/bin/env python3
"""check.py [--thorough] <property>: decides one property on /repo's working tree.

exit 0: held on everything explored; exit 1: VIOLATION line(s); exit 2: the
check could not be carried out."""
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))


def main():
    import common
    if "--thorough" in sys.argv:
        os.environ["VERIF_TIER"] = "thorough"
    prop = sys.argv[-1]
    try:
        import checks
        code = checks.CHECKS[prop](prop)
    except common.ToolError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)


main()
