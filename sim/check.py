#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--cases N] [--seed S] | check.py replay FILE | check.py case ID INDEX [--dump]"""
import argparse, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import build as B, core, props


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "replay":
        d = json.load(open(sys.argv[2]))
        p = props.ALL[d["property"]]
        bins = B.build(list(p.variants))
        r = core.Runner(bins)
        vs, info = p.execute(d["case"], r)
        for v in vs:
            print("%s: %s" % v)
        hit = [v for v in vs if v[0] == d["kind"]]
        print("REPRODUCED" if hit else "not reproduced")
        if hit:
            print("VIOLATION property=%s replay=%s" % (d["property"], sys.argv[2]))
        return 1 if hit else 0
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("index", nargs="?")
    ap.add_argument("idx2", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--dump", action="store_true")
    a = ap.parse_args()
    if a.id == "case":
        p = props.ALL[a.index]
        bins = B.build(list(p.variants))
        case = core.make_case(p, a.seed, int(a.idx2), a.tier)
        r = core.Runner(bins)
        if a.dump:
            orig = r.run
            def run(variant, plan, timeout=120):
                h = orig(variant, plan, timeout)
                print("=== plan (%s)\n%s\n=== history\n%s" % (variant, h.plan, h.raw))
                return h
            r.run = run
        print(json.dumps(case)[:2000])
        vs, info = p.execute(case, r)
        print(vs, info)
        return 0
    if a.id not in props.ALL:
        print("unknown property", a.id)
        return 2
    return core.run_check(props.ALL[a.id], a.tier, a.seed, a.cases, a.workers)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        sys.exit(2)
