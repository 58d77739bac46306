"""Runs a shard of the cases of one property against the real code and records what it did"""
import sys, os, json, itertools, importlib, traceback, warnings, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

def main():
    pid = sys.argv[1]
    mod = importlib.import_module(pid.lower())
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    from lib import observe
    if sys.argv[2] == "--case":
        case = json.load(open(sys.argv[3]))
        case["i"] = 1
        with open(sys.argv[4], "w") as f: f.write(json.dumps(observe(mod, case, 0))+"\n")
        return 0
    tier, seed, shard, nshard, start = sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]), int(sys.argv[6])
    out, prog, genfile = sys.argv[7:10]
    gen = json.load(open(genfile)); nhang = 0
    try:
        with open(out, "w") as f, open(prog, "w") as pf:
            extra = []
            if pid in ("P02","P03","P04","P05","P11","P12","P15","P23"):
                import deleg, random
                extra = deleg.cases(pid, random.Random(seed), 1 if tier == "quick" else 6)
            for n, case in enumerate(itertools.chain(mod.cases(tier, seed, gen), extra)):
                if n % nshard != shard or n < start: continue
                pf.seek(0); pf.truncate(); pf.write("%d\n%s" % (n, json.dumps(case))); pf.flush()
                rec = observe(mod, case, n)
                f.write(json.dumps(rec)+"\n"); f.flush()
                nhang += rec["x"] == "Hang"
                if nhang >= 2: break    # enough to report; more would only use up the time
    except Exception:
        traceback.print_exc()
        return 3
    return 0

if __name__ == "__main__":
    sys.exit(main())
