#!/usr/bin/env python3
"""check.py C07 -- decide one property on /repo's working tree (VERIF_SEED, VERIF_TIER from the environment)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import props
if __name__ == "__main__":
    if len(sys.argv) > 2: os.environ["VERIF_TIER"] = sys.argv[2]
    try: sys.exit(props.run(sys.argv[1]))
    except KeyboardInterrupt: sys.exit(2)
