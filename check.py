#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo's working tree; see DESIGN.md."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
sys.dont_write_bytecode = True


def main(pid):
    import props
    props.CHECKS[pid]()


if __name__ == "__main__":
    main(sys.argv[1])
