"""python -m dst.cli check C01 | replay FILE | digests C01 FIRST N WORKERS"""

import json
import os
import sys


def main():
    from . import runner

    runner.import_library()
    from . import seams

    cmd = sys.argv[1]
    if cmd == "setup":
        print("library imports from", runner.import_library() or "the working tree")
        sys.exit(0)
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if cmd == "check":
        pid = sys.argv[2]
        args = dict(a.split("=") for a in sys.argv[3:])
        runner.load_prop(pid)
        seams.install()
        sys.exit(
            runner.check(
                pid,
                args.get("tier", tier),
                int(args.get("seed", seed)),
                workers=int(args["workers"]) if "workers" in args else None,
                nruns=int(args["runs"]) if "runs" in args else None,
                wall=float(args["wall"]) if "wall" in args else None,
                first=int(args.get("first", 0)),
            )
        )
    if cmd == "replay":
        with open(sys.argv[2], encoding="utf8") as f:
            d = json.load(f)
        pid = d["property"]
        runner.load_prop(pid)
        seams.install()
        res = runner.run_one(
            pid, lambda: runner.Tape(choices=list(d["choices"])), True, d["tier"]
        )
        for line in res.get("trace", []):
            print("   ", line)
        print(f"status={res['status']} kind={res['kind']} digest={res.get('digest')}")
        print(res["msg"])
        if res["status"] == "violation" and res["kind"] == d["kind"]:
            same = res.get("digest") == d["digest"]
            print("same event log as recorded:", same)
            print(f"VIOLATION property={pid} replay={sys.argv[2]}")
            sys.exit(1)
        sys.exit(0 if res["status"] in ("ok", "discard") else 2)
    if cmd == "digests":
        # event-log digests of a range of runs, for the determinism self-test
        pid, first, n, workers = sys.argv[2], *map(int, sys.argv[3:6])
        runner.load_prop(pid)
        seams.install()
        results, _ = runner.batch(pid, seed, n, tier, 3000.0, workers, first)
        results.sort(key=lambda r: r["index"])
        for r in results:
            print(r["index"], r["status"], r["kind"], r.get("digest"), r.get("nev"))
        sys.exit(0)
    if cmd == "one":
        pid, index = sys.argv[2], int(sys.argv[3])
        runner.load_prop(pid)
        seams.install()
        res = runner.run_one(
            pid,
            lambda: runner.Tape(seed=runner.tape_seed(seed, pid, index)),
            True,
            tier,
        )
        for line in res.get("trace", []):
            print("   ", line)
        print(res["status"], res["kind"], res.get("digest"), "cpu", res.get("cpu"))
        print(res["msg"])
        print("faults", res.get("faults"), "probes", res.get("probes"))
        sys.exit(0)
    raise SystemExit("unknown command")


if __name__ == "__main__":
    main()
