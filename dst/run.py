"""python -m dst.run {build | check ID | replay FILE | selftest ID [N]}"""
import sys


def main(argv):
    from dst import drive, build
    from dst.core import HarnessError
    cmd = argv[0]
    try:
        if cmd == "build":
            print(build.build())
            return 0
        if cmd == "check":
            return drive.check(argv[1])
        if cmd == "replay":
            return drive.replay(argv[1])
        if cmd == "selftest":
            return drive.selftest(argv[1], *map(int, argv[2:3]))
        if cmd == "digests":
            return drive.digests(argv[1], int(argv[2]), int(argv[3]))
        if cmd == "plan":
            import json
            mod = drive.load(argv[1])
            print(json.dumps(drive.gen_plan(mod, int(argv[2]), int(argv[3])),
                             indent=1))
            return 0
        if cmd == "one":
            mod = drive.load(argv[1])
            p = drive.gen_plan(mod, int(argv[2]), int(argv[3]))
            r = drive.run_plan(mod, p, keep=True)
            print("\n".join(r["log"]))
            print(r["viol"], r["error"])
            return 0
    except (HarnessError, build.BuildError) as e:
        sys.stdout.flush()
        print("HARNESS ERROR: %s" % e, file=sys.stderr)
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
