import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import staircase  # noqa: E402

if not os.path.realpath(staircase.__file__).startswith(os.path.realpath(os.environ.get("MC_REPO", "/repo")) + "/"):
    sys.exit("staircase imported from %s" % staircase.__file__)

from mc import engine  # noqa: E402

if __name__ == "__main__":
    if sys.argv[1] == "selftest":
        from mc import selftest

        sys.exit(selftest.main())
    if sys.argv[1] == "replay":
        sys.exit(engine.replay(sys.argv[2]))
    sys.exit(engine.main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
