import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True


def main():
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if len(sys.argv) > 2 and sys.argv[2] == "--replay":
        from lib import harness

        sys.exit(harness.replay(prop, sys.argv[3]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    from lib import harness

    harness.main(prop, tier, seed)


if __name__ == "__main__":
    main()
