"""python -m symx.replay FILE: exit 1 if the recorded input still fails on
the real code of /repo, 0 if it passes, 2 if it cannot be run."""
import sys

from .harness import replay_file

if __name__ == "__main__":
    d, r = replay_file(sys.argv[1])
    print("property %s harness %s config %s inputs %s" % (
        d["property"], d["harness"], d["config"], d["inputs"]))
    print("result:", r)
    sys.exit({"fail": 1, "ok": 0}.get(r[0], 2))
