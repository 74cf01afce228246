"""Runs one check: python3 sa/run.py <property id>   (VERIF_TIER=quick|thorough)

Exit 0: the property held on everything analysed (known findings are printed, not alarmed on).
Exit 1 with a line VIOLATION property=<id> replay=<path>: a construct of /repo's current source breaks it."""
import importlib, json, multiprocessing as mp, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)

DEADLINE = {"quick": 600, "thorough": 820}


class Ctx:
    """what a check sees: the program, the tier, and where it reports"""

    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.viol = {}          # key -> message
        self.cnt = {}           # counters
        self.samples = []
        self.incomplete = []    # what could not be analysed (quiet, but said in the evidence)
        self.assume = []
        self.rule = ""
        self.prog = None

    def v(self, key, msg):
        self.viol.setdefault(key, msg)

    def n(self, what, k=1):
        self.cnt[what] = self.cnt.get(what, 0) + k

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def left(self):
        return DEADLINE[self.tier] - (time.time() - self.t0)

    def floor(self, what, least=1):
        if self.cnt.get(what, 0) < least:
            self.incomplete.append("only %d of at least %d expected: %s" % (self.cnt.get(what, 0), least, what))
            return False
        return True


# ------------------------------------------------------------------ abstract handshake runs
_J = {}


def _job(a):
    cls, side, sc, kw = a
    import tls_model
    p = _J["prog"]
    m = cls(side, sc)
    m.prog = p
    e = getattr(cls, "engine", lambda: tls_model.TlsEngine)()(p, [m], **kw)
    e.max_blocks = 20000000
    e.deadline = _J["deadline"]
    t = time.time()
    err = None
    try:
        r, f = tls_model.run_entry(e, p, side, sc)
        m.run_on(e, r)
        m.finish(e, r)
    except Exception as x:
        err = "%s: %s" % (type(x).__name__, str(x)[:300])
        if not isinstance(x, (tls_model.Bug,)):
            err += " | " + traceback.format_exc()[-500:].replace("\n", " / ")
    return (side, [str(n) for j, fn, d, n in sc], err, m.viol, {k: v for k, v in m.cnt.items() if type(k) is str},
            getattr(m, "out", []), time.time() - t,
            {k: e.stats.get(k, 0) for k in ("blocks",)}, len(e.done) if hasattr(e, "done") else 0, m.samples, str(e.stats.get("miss") or "")[:300])


def cover(scs, want=None):
    """a pairwise covering selection of the scenarios (all of them in the thorough tier)"""
    if not scs or not scs[0]:
        return scs
    from itertools import combinations
    need = set()
    for s in scs:
        need |= set(combinations([(x[0] if x[0] != "type" else "t", x[2]) for x in s], 2))
    out = []
    rest = [(i, s) for i, s in enumerate(scs) if not want or want(s)]
    while need and rest:
        best = max(rest, key=lambda r: (len(need & set(combinations([(x[0] if x[0] != "type" else "t", x[2]) for x in r[1]], 2))), -r[0]))
        g = need & set(combinations([(x[0] if x[0] != "type" else "t", x[2]) for x in best[1]], 2))
        if not g:
            break
        need -= g
        out.append(best[1])
        rest.remove(best)
    return out


def handshakes(ctx, cls, sides=("client", "server"), logs=False, want=None, allscen=False, few=0):
    """abstract interpretation of the whole handshake of each role under every configuration"""
    import tls_model
    jobs = []
    for side in sides:
        try:
            scs = tls_model.scenarios(ctx.prog, side)
        except Exception as x:
            ctx.incomplete.append("%s: %s" % (side, x))
            continue
        ctx.n("configurations " + side, len(scs))
        if want:
            scs = [s for s in scs if want(side, {x[1] if x[0] != "type" else "suite": x[3] for x in s})]
        if ctx.tier == "quick" and not allscen:
            scs = cover(scs)
            if few:
                scs = scs[:few]
        jobs += [(cls, side, s, {"logs": logs}) for s in scs]
        ctx.n("configurations analysed " + side, len(scs))
    jobs.sort(key=lambda j: (j[1] == "client" and any("EMPTY" in str(x[3]) for x in j[2])))
    _J["prog"] = ctx.prog
    _J["deadline"] = ctx.t0 + DEADLINE[ctx.tier]
    n = min(os.cpu_count() or 4, 8, max(1, len(jobs)))
    outs = []
    with mp.Pool(n, maxtasksperchild=2) as pool:
        it = pool.imap_unordered(_job, jobs)
        for _ in jobs:
            try:
                side, sc, err, viol, cnt, out, sec, stats, _n, samples, miss = it.next(timeout=max(5, ctx.left() + 20))
            except mp.TimeoutError:
                ctx.incomplete.append("time limit reached before every configuration was analysed")
                pool.terminate()
                break
            if err:
                ctx.incomplete.append("%s %s: %s" % (side, sc, err))
            if miss:
                ctx.incomplete.append("%s %s: not modelled: %s" % (side, sc, miss))
            for k, m in viol.items():
                ctx.v(k, m)
            for k, c in cnt.items():
                ctx.n(k, c)
            for s in samples:
                ctx.sample(s)
            outs += out
            ctx.n("basic blocks interpreted", stats["blocks"])
            ctx.n("configuration runs completed", 0 if err else 1)
    return outs


def _pjob(a):
    i, job = a
    c = Ctx(_J["pid"], _J["tier"])
    c.t0 = _J["t0"]
    c.prog = _J["prog"]
    try:
        _J["fn"](c, *job)
    except Exception as x:
        c.incomplete.append("%s: %s: %s | %s" % (str(job)[:100], type(x).__name__, str(x)[:200], traceback.format_exc()[-400:].replace("\n", " / ")))
    return c.viol, c.cnt, c.samples, c.incomplete


def parallel(ctx, fn, jobs):
    """run fn(ctx, *job) for every job in forked workers and merge what they report"""
    _J.update(prog=ctx.prog, pid=ctx.pid, tier=ctx.tier, t0=ctx.t0, fn=fn)
    jobs = list(enumerate(jobs))
    with mp.Pool(min(os.cpu_count() or 4, 8, max(1, len(jobs))), maxtasksperchild=8) as pool:
        it = pool.imap_unordered(_pjob, jobs)
        for _ in jobs:
            try:
                viol, cnt, samples, inc = it.next(timeout=max(5, ctx.left() + 20))
            except mp.TimeoutError:
                ctx.incomplete.append("time limit reached before everything was analysed")
                pool.terminate()
                break
            for k, m in sorted(viol.items()):
                ctx.v(k, m)
            for k, c in cnt.items():
                ctx.n(k, c)
            for s in samples[:2]:
                ctx.sample(s)
            ctx.incomplete += inc


# ------------------------------------------------------------------ known findings
def known():
    """list of (property, key prefix, what) and nothing else: fixed entries suppress nothing"""
    out = []
    fn = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(fn):
        for ln in open(fn):
            ln = ln.strip()
            if ln.startswith("known: "):
                head, _, what = ln[7:].partition(" -- ")
                p, _, key = head.partition(" ")
                out.append((p.split("=")[1], key.split("=", 1)[1].strip(), what))
    return out


def main(argv):
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if tier not in DEADLINE:
        tier = "quick"
    ctx = Ctx(pid, tier)
    mod = importlib.import_module("checks." + pid.lower())
    broken = None
    try:
        import load, engine
        ctx.prog = engine.Program(load.extract())
        mod.run(ctx)
    except Exception as x:
        broken = "%s: %s" % (type(x).__name__, str(x)[-1500:])
        if os.environ.get("SA_DEBUG"):
            traceback.print_exc()
        ctx.incomplete.append("analysis stopped: " + broken)
    evd = os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    kn = [(k, w) for p, k, w in known() if p == pid]
    fresh, seen = {}, {}
    for k, m in ctx.viol.items():
        for kk, w in kn:
            if kk == k:
                seen.setdefault(kk, w)
                break
        else:
            fresh[k] = m
    cov = {"explanation": (mod.__doc__ or "").strip() or pid, "rule": ctx.rule or (mod.RULE if hasattr(mod, "RULE") else ""),
           "counts": {k: v for k, v in sorted(ctx.cnt.items())},
           "samples": ctx.samples or ["none"], "known_findings_seen": sorted(seen),
           "incomplete": ctx.incomplete[:20]}
    if hasattr(mod, "coverage"):
        cov.update(mod.coverage(ctx))
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": cov, "assumptions": list(getattr(mod, "ASSUME", [])) + ctx.assume,
          "wall_s": round(time.time() - ctx.t0, 1), "violations": len(fresh)}
    with open(os.path.join(evd, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k in sorted(seen):
        print("KNOWN-FINDING: property=%s %s" % (pid, seen[k]))
    for i in ctx.incomplete[:20]:
        print("INCOMPLETE: %s" % str(i)[:600])
    if fresh:
        rp = os.path.join(evd, "replay-%s.txt" % pid)
        with open(rp, "w") as f:
            f.write("property %s, tier %s\n\n" % (pid, tier))
            for k in sorted(fresh):
                f.write("[%s]\n  %s\n\n" % (k, fresh[k]))
        for k in sorted(fresh)[:20]:
            print("  %s: %s" % (k, fresh[k][:600]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK property=%s (%d s) %s" % (pid, time.time() - ctx.t0,
                                        ", ".join("%s: %s" % x for x in sorted(ctx.cnt.items()))[:1500]))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv))
