"""Re-run a replay file written by a check: ``replay.py evidence/replays/C01.txt``."""

import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import run  # noqa: E402


def main():
    with open(sys.argv[1], encoding="utf-8", errors="surrogatepass") as f:
        lines = f.read().splitlines()
    prop = re.match(r"# property (\S+),", lines[0]).group(1)
    case = "\n".join(line for line in lines if not line.startswith("#"))
    bad, msg = run.replay_case(prop, case)
    print(("FAIL " if bad else "") + msg)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
