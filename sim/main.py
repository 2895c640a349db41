import os
import sys

from . import runner


def main(argv):
    cmd = argv[0]
    if cmd == "check":
        pid = argv[1]
        tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1"))
        return runner.check(pid, tier, seed)
    if cmd == "replay":
        return runner.replay(os.path.abspath(argv[1]))
    if cmd == "plan":
        # Print the plan of one run: plan ID INDEX [tier]
        import json

        from . import core

        prop = runner.load_property(argv[1])
        i = int(argv[2])
        tier = argv[3] if len(argv) > 3 else "quick"
        seed = int(os.environ.get("VERIF_SEED", "1"))
        print(json.dumps(prop.gen(core.rng_for(seed, argv[1], i), i, tier), indent=1))
        return 0
    raise SystemExit(f"unknown command {cmd}")


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
