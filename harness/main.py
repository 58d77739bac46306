"""Orchestrates one check: build /repo, run the model checker on the specification, let the
specification generate behaviours, replay them (and seeded cases) into the real code in worker
processes, hand the recorded trace to TLC, and turn its verdicts into an exit code."""
import sys, os, json, subprocess, time, tempfile, shutil, signal, importlib, random, re, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
sys.path.insert(0, HERE)
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CASE_TIMEOUT = 150      # seconds without progress before a worker is considered hung
NW = 4                  # worker processes

class MachineryError(Exception): pass

def log(*a):
    print(*a, flush=True)

def build():
    p = subprocess.run(["bash", "/opt/vp/build.sh", "ext"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise MachineryError("build failed:\n" + p.stdout[-3000:])

def tlc(module, cfg, scratch, env=None, workers=8, extra=(), timeout=800, heap="6g"):
    """Run TLC in a scratch metadir. Returns (returncode, output)"""
    meta = tempfile.mkdtemp(prefix="tlc", dir=scratch)
    e = dict(os.environ)
    if env: e.update(env)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JARS, "-DTLA-Library=" + SPEC, "tlc2.TLC",
        "-config", cfg, "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE"] + list(extra) + [module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as ex:
        raise MachineryError("TLC timed out on %s" % module)
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout

def tlc_stats(out):
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
    if not m: return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))

def run_mc(mod, tier, scratch, ev):
    """Exhaustive model checking of the specification itself"""
    for entry in getattr(mod, "MC", []):
        name, cfg = entry["module"], entry["cfg"]
        if entry.get("tier", "quick") == "thorough" and tier != "thorough": continue
        t0 = time.time()
        rc, out = tlc(name + ".tla", cfg, scratch, workers=entry.get("workers", 8), timeout=entry.get("timeout", 600))
        if rc != 0 or "No error has been found" not in out:
            raise MachineryError("model checking of %s with %s failed (rc %d):\n%s" % (name, cfg, rc, out[-4000:]))
        g, d = tlc_stats(out)
        if d < entry.get("min_states", 2): raise MachineryError("vacuous model %s: %d states" % (name, d))
        ev["mc_states"] += d; ev["mc_transitions"] += g
        ev["models"].append(dict(module=name, cfg=cfg, states=d, transitions=g, wall_s=round(time.time()-t0, 1)))

def run_gen(mod, tier, seed, scratch, ev):
    """Let TLC produce behaviours of the specification. Each is printed as a line GEN <json>"""
    res = {}
    for entry in getattr(mod, "GEN", []):
        if entry.get("tier", "quick") == "thorough" and tier != "thorough": continue
        t0 = time.time()
        extra = []
        if "simulate" in entry:
            num = entry["simulate"] * (entry.get("thorough_factor", 5) if tier == "thorough" else 1)
            extra = ["-simulate", "num=%d" % num, "-depth", str(entry["depth"]), "-seed", str(seed)]
        rc, out = tlc(entry["module"] + ".tla", entry["cfg"], scratch, workers=1 if "simulate" in entry else 8, extra=extra, timeout=600)
        if rc != 0: raise MachineryError("generation from %s failed (rc %d):\n%s" % (entry["module"], rc, out[-4000:]))
        seen, items = set(), []
        for m in re.finditer(r'^"GEN (.*)"$', out, re.M):
            s = m.group(1).replace('\\"', '"').replace("\\\\", "\\")
            if s in seen: continue
            seen.add(s); items.append(json.loads(s))
        if len(items) < entry.get("min", 1): raise MachineryError("generator %s made only %d behaviours\n%s" % (entry["module"], len(items), out[-2000:]))
        # TLC's worker interleaving must not matter
        items.sort(key=lambda o: json.dumps(o, sort_keys=True))
        if "limit" in entry:
            lim = entry["limit"]*(entry.get("thorough_factor", 5) if tier == "thorough" else 1)
            if len(items) > lim:
                items = random.Random(seed).sample(items, lim)
        res[entry["name"]] = items
        g, d = tlc_stats(out)
        if "simulate" not in entry:
            ev["mc_states"] += d; ev["mc_transitions"] += g
        ev["generators"].append(dict(module=entry["module"], cfg=entry["cfg"], behaviours=len(items), wall_s=round(time.time()-t0, 1)))
    return res

def start_worker(pid, tier, seed, shard, nshard, start, scratch, gen):
    out = os.path.join(scratch, "trace.%d.%d.ndjson" % (shard, start))
    prog = os.path.join(scratch, "prog.%d.%d" % (shard, start))
    err = open(os.path.join(scratch, "err.%d.%d" % (shard, start)), "w")
    env = dict(os.environ)
    env.setdefault("OMP_NUM_THREADS", "4"); env.setdefault("DUCC0_NUM_THREADS", "2"); env["OPENBLAS_NUM_THREADS"] = "1"
    env["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    wdir = tempfile.mkdtemp(prefix="w", dir=scratch)
    p = subprocess.Popen([sys.executable, os.path.join(HERE, "worker.py"), pid, tier, str(seed), str(shard), str(nshard), str(start), out, prog, gen],
        cwd=wdir, env=env, stdout=err, stderr=err)
    return dict(p=p, out=out, prog=prog, shard=shard, start=start, t=time.time(), last=None, err=err.name)

def run_workers(pid, mod, tier, seed, scratch, gen, only=None):
    nshard = getattr(mod, "NSHARD", NW)
    genfile = os.path.join(scratch, "gen.json")
    with open(genfile, "w") as f: json.dump(gen, f)
    ws = [start_worker(pid, tier, seed, s, nshard, 0, scratch, genfile) for s in range(nshard)]
    done, crashed = [], []
    while ws:
        time.sleep(0.05)
        for w in list(ws):
            try: prog = open(w["prog"]).read()
            except OSError: prog = None
            if prog != w["last"]: w["last"], w["t"] = prog, time.time()
            rc = w["p"].poll()
            hung = rc is None and time.time()-w["t"] > CASE_TIMEOUT
            if rc is None and not hung: continue
            if hung:
                w["p"].kill(); w["p"].wait()
            ws.remove(w); done.append(w)
            if rc == 0: continue
            err = open(w["err"]).read()
            if rc == 3 or not prog:
                raise MachineryError("worker for %s failed:\n%s" % (pid, err[-4000:]))
            # the real code took the process down (or never returned) in case number prog
            n, desc = prog.split("\n", 1)
            crashed.append(dict(n=int(n), how="hang" if hung else "signal %d" % -rc if rc < 0 else "exit %d" % rc, case=json.loads(desc), err=err[-1500:]))
            if len(crashed) < 5:
                ws.append(start_worker(pid, tier, seed, w["shard"], nshard, int(n)+1, scratch, genfile))
    return [w["out"] for w in done], crashed

def validate_once(mod, trace, n, scratch, workers):
    rc, out = tlc(mod.TRACE + ".tla", getattr(mod, "TRACECFG", "Trace.cfg"), scratch, env={"TRACE": trace}, workers=workers)
    fails = {}
    for m in re.finditer(r'^"FAIL (\d+) (.*)"$', out, re.M):
        fails[int(m.group(1))] = sorted(set(re.findall(r'[\w<>=.\-]+', m.group(2).replace('\\"', " "))))
    g, d = tlc_stats(out)
    if rc != 0 or "No error has been found" not in out:
        # A record TLC cannot evaluate: the state it was in names it
        m = re.findall(r"^i = (\d+)$", out, re.M) or re.findall(r"^/\\ i = (\d+)$", out, re.M)
        if not m: raise MachineryError("trace validation did not finish (rc %d):\n%s" % (rc, out[:1500] + "\n...\n" + out[-3000:]))
        return fails, d, g, int(m[-1]), out
    nw = min(16, n)
    if d != n + nw: raise MachineryError("trace validation looked at %d states, expected %d" % (d, n+nw))
    return fails, d, g, None, out

def validate(mod, trace, n, scratch, workers=8, attempts=12):
    """Let TLC decide every record of the trace. Returns {record number: [failing clauses]}. An observation
    without the structure the specification prescribes (so that TLC cannot evaluate the clauses) is a failure too."""
    if n == 0: raise MachineryError("empty trace")
    lines = open(trace).read().splitlines()
    odd, cur = {}, trace
    for attempt in range(attempts):
        fails, d, g, stuck, out = validate_once(mod, cur, len(lines), scratch, workers)
        orig = {k+1: json.loads(l)["i"] for k, l in enumerate(lines)}
        if stuck is None:
            fails.update(odd)
            return fails, d, g, True
        odd[orig[stuck]] = ["structure"]
        if os.environ.get("VERIF_DEBUG"): log("structure:", lines[stuck-1][:600], "\n".join(out.splitlines()[-60:])[:1500])
        del lines[stuck-1]
        if not lines: break
        cur = trace + ".%d" % attempt
        with open(cur, "w") as f: f.write("\n".join(lines)+"\n")
    fails.update(odd)
    return fails, d, g, False

def known_findings():
    fn = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(fn): return []
    return [f for f in json.load(open(fn)) if f["status"] == "known"]

def find_known(pid, known, rec, clauses):
    for f in known:
        if f["property"] != pid: continue
        if f["tag"] == rec.get("tag") and set(clauses) <= set(f["clauses"]): return f
    return None

def corrupt(rec, rng):
    """Change one recorded integer of the observation by a lot"""
    rec = json.loads(json.dumps(rec))
    spots = []
    def walk(o, path):
        if isinstance(o, dict):
            for k in o: walk(o[k], path+[k])
        elif isinstance(o, list):
            for k in range(len(o)): walk(o[k], path+[k])
        elif isinstance(o, int) and not isinstance(o, bool): spots.append(path)
    walk(rec["o"], ["o"])
    if not spots: return None
    path = rng.choice(spots)
    o = rec
    for k in path[:-1]: o = o[k]
    v = o[path[-1]]
    o[path[-1]] = v + 1009 if abs(v) <= 100 else 7777777 if v != 7777777 else 1
    rec["corrupted"] = [str(k) for k in path]
    return rec

def main():
    pid = sys.argv[1]
    args = sys.argv[2:]
    replay = None
    if "--replay" in args: replay = args[args.index("--replay")+1]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in args:
        if a in ("quick", "thorough"): tier = a
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    mod = importlib.import_module(pid.lower())
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    ev = dict(mc_states=0, mc_transitions=0, models=[], generators=[])
    try:
        build()
        if replay:
            return do_replay(pid, mod, replay, scratch)
        run_mc(mod, tier, scratch, ev)
        gen = run_gen(mod, tier, seed, scratch, ev)
        t1 = time.time()
        outs, crashed = run_workers(pid, mod, tier, seed, scratch, gen)
        t2 = time.time()
        recs = []
        for o in outs:
            if not os.path.exists(o): continue
            for line in open(o):
                try: recs.append(json.loads(line))
                except ValueError: pass     # a line cut short by a crash
        recs.sort(key=lambda r: r["n"])
        rng = random.Random(seed)
        kinds, tracefn, nrec = {}, os.path.join(scratch, "trace.ndjson"), len(recs)
        pool = [r for r in recs if r["x"] == "" and not r.get("tag")]
        corr = [c for c in (corrupt(r, rng) for r in rng.sample(pool, min(40, len(pool)))) if c]
        corrfn = os.path.join(scratch, "corrupted.ndjson")
        with open(tracefn, "w") as f, open(corrfn, "w") as fc:
            for i, r in enumerate(recs + corr):
                r["i"] = i+1
                if r["x"] == "" and i < nrec: kinds[r["k"]] = kinds.get(r["k"], 0)+1
                (f if i < nrec else fc).write(json.dumps({k: r[k] for k in ("i", "k", "a", "o", "x")})+"\n")
        fails, d, g, complete = validate(mod, tracefn, nrec, scratch)
        if corr: fails.update(validate(mod, corrfn, len(corr), scratch, workers=2, attempts=6)[0])
        t3 = time.time()
        rejected = sum(1 for i in fails if i > nrec)
        missed = [c for i, c in enumerate(corr) if nrec+i+1 not in fails]
        fails = {i: c for i, c in fails.items() if i <= nrec}
        ev["mc_states"] += d; ev["mc_transitions"] += g
        known, nviol, seen = known_findings(), 0, set()
        rdir = os.path.join(VERIF, "evidence", "replay")
        viol = []
        for i in sorted(fails):
            rec = recs[i-1]
            k = find_known(pid, known, rec, fails[i])
            if k:
                seen.add(k["tag"]); continue
            viol.append((rec, fails[i]))
        for c in crashed:
            case = c["case"]
            rec = dict(n=c["n"], k=case["k"], a=case["a"], o={}, x=c["how"], tag=case.get("tag"), err=c["err"])
            if find_known(pid, known, rec, ["crash"]): seen.add(rec["tag"]); continue
            viol.append((rec, ["crash"]))
        for k in known:
            if k["property"] == pid and k["tag"] in seen:
                log("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        byclause = {}
        for rec, cl in viol:
            for c in cl: byclause[rec["k"]+"/"+c] = byclause.get(rec["k"]+"/"+c, 0)+1
        if viol:
            log("%d of %d recorded steps violate the specification: %s" % (len(viol), nrec, json.dumps(byclause)))
            os.makedirs(rdir, exist_ok=True)
            shown = set()
            for rec, cl in viol:
                key = rec["k"]+"/"+cl[0]
                if key in shown: continue
                shown.add(key)
                fn = os.path.join(rdir, "%s-%d.json" % (pid, rec["n"]))
                with open(fn, "w") as f: json.dump(dict(property=pid, seed=seed, tier=tier, clauses=cl, record=rec), f)
                nviol += 1
                if nviol <= 6: log("  kind=%s clauses=%s raised=%s args=%s" % (rec["k"], ",".join(cl), rec["x"], json.dumps(rec["a"])[:400]))
                log("VIOLATION property=%s replay=%s" % (pid, fn))
                if nviol >= 6: break
        samples = [dict(k=r["k"], a=r["a"], o=r["o"]) for r in (rng.sample(pool, min(2, len(pool))) if pool else [])]
        samples = [s if len(json.dumps(s)) < 4000 else dict(k=s["k"], a=json.dumps(s["a"])[:1500], o=json.dumps(s["o"])[:1500]) for s in samples]
        cov = dict(states=ev["mc_states"], transitions=ev["mc_transitions"], traces_validated_against_impl=nrec,
            samples=samples, models=ev["models"], generators=ev["generators"], steps_by_kind=kinds,
            distinct_inputs=len({json.dumps([r["k"], r["a"]], sort_keys=True) for r in recs}),
            corrupted_records_rejected="%d of %d" % (rejected, len(corr)), raised=sum(1 for r in recs if r["x"]),
            wall=dict(record=round(t2-t1, 1), validate=round(t3-t2, 1)))
        edir = os.path.join(VERIF, "evidence"); os.makedirs(edir, exist_ok=True)
        with open(os.path.join(edir, pid+".json"), "w") as f:
            json.dump(dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
                assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time()-t0, 2), violations=len(viol)), f, indent=1)
        log("%s %s: %d steps of the real code validated, %d failing, %d model states, corrupted rejected %d/%d, %.1f s (record %.1f, validate %.1f)" %
            (pid, tier, nrec, len(viol), ev["mc_states"], rejected, len(corr), time.time()-t0, t2-t1, t3-t2))
        if os.environ.get("VERIF_DEBUG"):
            for c in missed: log("  corruption not noticed:", c["k"], c["corrupted"], json.dumps(c["a"])[:200])
        if viol: return 1
        if not complete: raise MachineryError("trace validation incomplete")
        return 0
    except MachineryError as e:
        log("ERROR", e); return 2
    except Exception:
        traceback.print_exc(); return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def do_replay(pid, mod, fn, scratch):
    r = json.load(open(fn))
    rec = r["record"]
    case = dict(k=rec["k"], a=rec["a"], tag=rec.get("tag"))
    casefn, out = os.path.join(scratch, "case.json"), os.path.join(scratch, "trace.ndjson")
    json.dump(case, open(casefn, "w"))
    p = subprocess.run([sys.executable, os.path.join(HERE, "worker.py"), pid, "--case", casefn, out], cwd=scratch)
    if p.returncode != 0:
        log("the case takes the process down: %d" % p.returncode)
        log("VIOLATION property=%s replay=%s" % (pid, fn)); return 1
    fails, d, g, ok = validate(mod, out, 1, scratch, workers=1)
    log(open(out).read()[:3000])
    if fails:
        log("failing clauses: %s" % fails)
        log("VIOLATION property=%s replay=%s" % (pid, fn)); return 1
    log("the case now satisfies the specification"); return 0

if __name__ == "__main__":
    sys.exit(main())
