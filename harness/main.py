import os
import sys
import traceback


def main(argv):
    import harness  # noqa: F401  (sets sys.path)
    if len(argv) >= 2 and argv[0] == "--replay":
        from harness.core import replay
        return replay(argv[1])
    if argv and argv[0] == "--selftest":
        import ecoengine  # noqa: F401
        import hypothesis  # noqa: F401
        print("harness ok:", ecoengine.__file__)
        return 0
    if not argv:
        print("usage: harness.main Cnn [quick|thorough] | --replay FILE")
        return 2
    prop = argv[0]
    if len(argv) >= 3 and argv[1] == "--replay":
        from harness.core import replay
        return replay(argv[2])
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    from harness.core import run_property
    return run_property("checks." + prop.lower(), tier, seed)


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
