"""Termination of every loop in the crate. A loop driven by next() on a finite standard iterator ends. For every other loop
one iteration is interpreted abstractly from unknown values of everything the loop changes; on each way back to the head
a counter has strictly moved towards its bound, a container has shrunk, or at least one byte was read from the socket.
Where a way back leaves everything the loop's branches depend on as it was, the loop never ends.
Recursion: every recursive call must pass on a counter that has moved and is bounded by a constant."""
from local import *
from lanes import *
import monitors as MO
import tls_model
from run import parallel
import os, re

TECHNIQUE = "ranking functions: one abstract iteration of every loop, induction over recursive calls, finite-iterator rule on MIR"
RULE = ("for every loop: each back edge strictly increases a bounded unsigned counter, strictly shrinks a container whose length is "
        "tested, consumes an item of a finite iterator, or reads at least one byte; every recursive call increases a counter that "
        "is compared with a constant")
ASSUME = ["lengths and counters do not wrap (they are bounded by the sizes of buffers in memory)", "reading from a socket waits for the peer; a closed one returns 0"]

INFINITE = ("RangeFrom", "Cycle", "Repeat", "RepeatWith", "Successors", "FromFn", "Incoming", "RepeatN<")


def is_next(d):
    return d.endswith("::next") and "Iterator" in d


def for_loop(p, f, cfg, h):
    """the loop is driven by next() on a finite standard iterator that lives across iterations: (type, None) or (None, why)"""
    L = cfg.loop[h]
    back = [u for u, v in cfg.back if v == h]
    why = None
    for b in L:
        t = f["bl"][b]["t"]
        if t[0] != "call" or t[1].get("i") is None or not is_next(p.F[t[1]["i"]]["d"]):
            continue
        # every iteration passes b: without b the head cannot be reached again
        if any(reaches(cfg, L, h, u, b) for u in back):
            continue
        a = t[2][0].get("mv") or t[2][0].get("cp")
        it = None
        for s in f["bl"][b]["s"]:
            if s[0] == "=" and s[1] == a and s[2][0] == "ref":
                it = s[2][1]
        if it is None:
            continue
        ty = f["lt"][it[0]]
        name = p.tname(ty)
        if any(x in name for x in INFINITE):
            why = "iterator %s does not end" % name
            continue
        if p.T[ty].get("local"):
            why = "iterator %s is defined here" % name
            continue
        # not set inside the loop
        if any(s[0] == "=" and s[1] == it for x in L for s in f["bl"][x]["s"]) or \
           any(f["bl"][x]["t"][0] == "call" and f["bl"][x]["t"][3] == it for x in L):
            why = "the iterator is replaced in the loop"
            continue
        # its end leaves the loop
        if not any(y not in L for x in L for y in cfg.succ[x] if x != b):
            continue
        return name, None
    return None, why


def reaches(cfg, L, h, u, avoid):
    """u is reachable from h inside L without passing avoid"""
    if h == avoid:
        return False
    seen, todo = {h}, [h]
    while todo:
        x = todo.pop()
        if x == u:
            return True
        for y in cfg.succ[x]:
            if y in L and y != avoid and y not in seen:
                seen.add(y)
                todo.append(y)
    return u == h


class Reads(MO.Mon):
    def on_tcp_read(self, eng, st, fr, data, n):
        st.settag("read", 1)
        eng.rxn.add(n)

    def on_random(self, eng, st, fr, **ev):
        st.settag("random", 1)


class It(NonceTls):
    """interprets one iteration of the loop at head h of the function target"""
    target = None
    head = None
    rec = ()          # ids of functions that take part in recursion
    hyp = False

    def setup(self, f, h):
        self.target, self.head = f, h
        self.rxn, self.backs, self.dec, self.leaf, self.calls, self.lts = set(), [], {}, {}, [], set()
        self.base = None
        if "::utils::" in f["d"]:
            self.OPAQUE_MODS = tuple(x for x in self.OPAQUE_MODS if "::der::" not in x)

    def is_event_fn(self, f):
        if super().is_event_fn(f):
            return True
        return bool(f["local"] and f.get("bl") and ("::net::" in f["d"] or "der_parse" in f["d"]))

    def setfact(self, st, t, v):
        super().setfact(st, t, v)
        if t in self.rxn and (v if type(v) is int else type(v) is frozenset and 0 in v):
            st.settag("got", 1)
        if t.op == "lt" and type(v) is int:
            a, b = t.a
            for x, c, w in ((a, b, 1), (b, a, 0)):
                if x.op == "sym" and is_fixed(x) and c.op == "i" and c.a[0] <= LIMIT and v == w:
                    st.settag("bound:%s" % show(x), 1)     # x < c, or x <= c: survives widening
            for a, b, w in ((t.a[0], t.a[1], 1), (t.a[1], t.a[0], 0)):
                if b in self.rxn and a.op == "i" and a.a[0] >= w - 1 and v == w:
                    st.settag("got", 1)

    def switch(self, fr, b, st, t, arrive):
        if self.base is not None:
            v = self.operand(st.copy(), fr, t[1])
            if v.op in ("lt", "not") and (v if v.op == "lt" else v.a[0]).op == "lt":
                self.lts.add(v if v.op == "lt" else v.a[0])
            if self.lookup(st, v) is None:
                for s in syms(v):
                    self.dec[s] = v
        return super().switch(fr, b, st, t, arrive)

    def handler(self, f):
        if f["id"] in self.rec:
            return self.recursive
        return super().handler(f)

    def recursive(self, eng, fr, b, st, f, vals, rty, atys):
        """a recursive call: its counters have moved on if it succeeds (induction), everything else it can write is unknown"""
        self.calls.append((f, [eng.load_all(st, v) for v in vals], st.copy(), vals))
        bad = st.copy()
        for k, (v, ty) in enumerate(zip(vals, atys)):
            if v.op == "ref":
                old = eng.load(st, v)
                inner = eng.p.T[ty].get("e")
                if inner is not None and eng.p.T[inner]["k"] == "int":
                    d = mk("sym", ("grown", f["id"], b, k))
                    eng.store(st, v, add(old, add(d, I(1 if self.hyp else 0))))
                else:
                    eng.store(st, v, mk("sym", ("after", f["id"], b, k)))
        T = eng.p.T[rty]
        if last(T.get("d", "")) != "Result":
            return [(st, mk("sym", ("result", f["id"], b)))]
        return [(st, tls_model.ok(rty, mk("sym", ("result", f["id"], b)))), (bad, tls_model.err(rty, mk("sym", ("error", f["id"], b))))]

    def key(self, st, level):
        """states that differ in a counter are kept apart (as long as the number of joins allows it)"""
        k = super().key(st, level)
        if level:
            return k
        c = []
        for r in self.counters():
            v = st.mem.get(r)
            if v is not None:
                c.append((r, v))
        return k + (frozenset(c),)

    def counters(self):
        if not hasattr(self, "_counters"):
            f, out = self.target, []
            cx = self.frames[0].ctx if self.frames else None
            for i, ty in enumerate(f["lt"]):
                if self.p.T[ty]["k"] == "int" and dict(f["names"]).get(i):
                    out.append((cx, i))
            names = dict(f["names"])
            for i in range(f["argc"]):
                t = self.p.T[f["lt"][1 + i]]
                if t["k"] == "ref" and t.get("mut") and self.p.T[t["e"]]["k"] == "int":
                    out.append(("arg", names.get(1 + i, str(i))))
            self._counters = out
        return self._counters

    # ------------------------------------------------------------------ the iteration
    def block(self, fr, b, st, arrive, ret):
        if fr.f is self.target and len(self.frames) == 1 and self.head is not None:
            L = fr.cfg.loop[self.head]

            def arrive2(x, s, frm):
                if x == self.head:
                    if self.base is not None and b in L:
                        self.backs.append(s)
                        return
                    self.havoc_loop(fr, s)
                    if self.base is None:
                        self.base = s.copy()
                elif self.base is not None and x not in L and b in L:
                    return      # leaves the loop
                arrive(x, s, frm)
            return super().block(fr, b, st, arrive2, ret)
        return super().block(fr, b, st, arrive, ret)

    def havoc_loop(self, fr, st):
        f = fr.f
        L = fr.cfg.loop[self.head]
        touched = set()
        for x in L:
            for s in f["bl"][x]["s"]:
                if s[0] == "=":
                    touched.add(s[1][0])
                    if s[2][0] == "ref" and s[2][2]:
                        touched.add(s[2][1][0])
            t = f["bl"][x]["t"]
            if t[0] == "call":
                touched.add(t[3][0])
        for r in list(st.mem):
            if type(r[0]) is str and r[0] not in ("arg",):
                continue
            if r[0] == fr.ctx and r[1] not in touched:
                continue
            if r[0] == fr.ctx and r[1] not in fr.cfg.live_in[self.head] and r[1] not in fr.cfg.taken:
                continue
            st.mem[r] = self.fresh_leaves(st.mem[r], r, ())
        st.facts = {t: v for t, v in st.facts.items()}

    def fresh_leaves(self, v, r, path):
        if v.op in ("ref", "slm", "vref", "boxal", "tag", "uninit") or v is UNINIT:
            return v
        if v.op == "agg" and not (v.a[1] == 0 and len(self.p.T[v.a[0]].get("v", [0])) > 1) and len(v.a) > 2 and \
                not (self.p.T[v.a[0]]["k"] == "adt" and self.p.T[v.a[0]]["a"] == "enum"):
            return mk("agg", v.a[0], v.a[1], *[self.fresh_leaves(x, r, path + (i,)) if type(x) is Term else x for i, x in enumerate(v.a[2:])])
        if v.op == "agg" and any(type(x) is Term and x.op in ("ref", "slm", "boxal") for x in v.a[2:]):
            return v
        s = mk("sym", ("leaf", r, path))
        if v in LEN and LEN[v].op == "i":
            set_len(s, LEN[v])
        self.leaf[s] = (r, path)
        return s

    def now(self, st, s):
        r, path = self.leaf[s]
        v = st.mem.get(r)
        for i in path:
            if v is None:
                return None
            if v.op == "agg":
                v = v.a[2 + i]
            else:
                return None
        return v


def arguments(e, p, f, st):
    names = dict(f["names"])
    out = []
    for i in range(f["argc"]):
        ty = f["lt"][1 + i]
        t = p.T[ty]
        n = names.get(1 + i, str(i))
        out.append(build(e, p, ty, "%s" % n, st))
    return out


def build(e, p, ty, n, st, depth=0):
    t = p.T[ty]
    if t["k"] == "ref" and t.get("mut"):
        st.mem[("arg", n)] = through(e, p, t["e"], n, st, depth)
        return mk("ref", ("arg", n))
    if t["k"] == "ref":
        return mk("vref", mk("sym", ("arg", n)))
    return through(e, p, ty, n, st, depth)


def through(e, p, ty, n, st, depth):
    t = p.T[ty]
    if t["k"] == "adt" and t["a"] == "struct" and t.get("local") and depth < 4 and t["v"][0]["f"]:
        return mk("agg", ty, 0, *[build(e, p, fty, n + "." + fn, st, depth + 1) for fn, fty in t["v"][0]["f"]])
    return mk("sym", ("arg", n))


# ---------------------------------------------------------------------- progress
def measure(eng, st, old, new, unsigned):
    """how the leaf changes: ('+', certain) grows, ('-', certain), ('=', True) unchanged, None unknown"""
    if new is None:
        return None
    if new is old:
        return "=", []
    for what, a, b in (("n", old, new), ("l", length(old), length(new))):
        if what == "n" and not unsigned:
            continue
        d = sub(b, a)
        c, ts = lin(d)
        if not ts and c == 0:
            if what == "l":
                return None
            return "=", []
        if c == 0 and len(ts) == 2 and {ts[0][0], ts[1][0]} == {1, -1}:
            y, x = sorted(ts, key=lambda q: -q[0])
            if st.facts.get(mk("lt", x[1], y[1])) == 1:
                return what + "+", ts
            if st.facts.get(mk("lt", y[1], x[1])) == 1:
                return what + "-", ts
        if all(k > 0 for k, t in ts) and c >= 0:
            return (what + "+" if c > 0 or positive(st, ts) else what + "0+"), ts
        if all(k < 0 for k, t in ts) and c <= 0:
            return (what + "-" if c < 0 or positive(st, ts) else what + "0-"), ts
    return None


def positive(st, ts):
    for k, t in ts:
        f = st.facts.get(t)
        if type(f) is int and f > 0 or type(f) is frozenset and 0 in f:
            return True
        if st.facts.get(mk("lt", I(0), t)) == 1 or st.facts.get(mk("lt", t, I(1))) == 0:
            return True
    return False


def lin(d):
    c, d = lin_parts(d)
    return c, [(k, t) for t, k in d.items()]


def zeroable(st, ts):
    """all terms of a difference can be 0 on this path (as far as it knows)"""
    for k, t in ts:
        if t.op not in ("lanes", "elem", "sym", "len", "trunc", "zext"):
            return False
        f = st.facts.get(t)
        if type(f) is int and f or type(f) is frozenset and 0 in f:
            return False
        for q, v in st.facts.items():
            if q.op == "lt" and type(v) is int and t in (q.a[0], q.a[1]):
                other = q.a[1] if q.a[0] is t else q.a[0]
                if other.op == "i":
                    z = (0 < other.a[0]) if q.a[0] is t else (other.a[0] < 0)
                    if int(z) != v:
                        return False
    return True


def sockets(p):
    """functions that may read from the socket, directly or in a call"""
    if not hasattr(p, "_sock"):
        out = {f["id"] for f in p.j["fns"] if f["d"].endswith("io::Read::read") or f["d"].endswith("as std::io::Read>::read")}
        ch = True
        while ch:
            ch = False
            for f in p.j["fns"]:
                if f.get("bl") and f["local"] and f["id"] not in out and \
                        any(b["t"][0] == "call" and b["t"][1].get("i") in out for b in f["bl"]):
                    out.add(f["id"])
                    ch = True
        p._sock = out
    return p._sock


def consumer(ctx, f, h):
    """every way round the loop passes the success of a call that takes input: (name, how)"""
    p = ctx.prog
    cfg = p.cfg(f)
    L = cfg.loop[h]
    back = [u for u, v in cfg.back if v == h]
    for b in sorted(L):
        t = f["bl"][b]["t"]
        if t[0] != "call" or t[1].get("i") not in sockets(p):
            continue
        g = p.F[t[1]["i"]]
        if not g.get("bl") or not g["local"] or any(reaches(cfg, L, h, u, b) for u in back):
            continue
        e = engine(ctx, g, None, 60000)
        st = St()
        args = arguments(e, p, g, st)
        start = [e.load_all(st, a) for a in args]
        try:
            rs = e.run_fn(g, args, st, e.ctx(0, 0, g["id"]), 0, False)
        except Exception as x:
            continue
        good = True
        n = 0
        for s, v in rs:
            rv = e.load_all(s, v)
            if rv.op == "agg" and last(re.sub(r"<.*", "", p.T[rv.a[0]].get("d", ""))) == "Result" and rv.a[1] == 1:
                continue
            n += 1
            if s.tag("got"):
                continue
            ws = []
            for i, a in enumerate(args):
                if p.T[g["lt"][1 + i]]["k"] == "ref":
                    x, y = leaves([start[i]]), leaves([e.load_all(s, a)])
                    ws += [measure(e, s, u, w, False) for u, w in zip(x, y)] if len(x) == len(y) else [None]
            if not any(w and w[0] == "l-" for w in ws) or any(w and w[0] in ("l+", "l0+") for w in ws):
                good = False
        # its failure leaves the loop: the error branch is not a way back
        if good and n and error_leaves(ctx, f, h, b):
            return last(g["d"]), n
    return None


def error_leaves(ctx, f, h, b):
    """once the call at b has failed, the head is not reached again (decided on the branch taken by `?`)"""
    p = ctx.prog
    cfg = p.cfg(f)
    L = cfg.loop[h]
    t = f["bl"][b]["t"]
    x = t[4]
    q = f["bl"][x]["t"]
    if q[0] == "call" and q[1].get("i") is not None and p.F[q[1]["i"]]["d"].endswith("Try>::branch"):
        s = f["bl"][q[4]]["t"]
        if s[0] == "sw":
            bad = [tgt for val, tgt in s[2] if val == 1] or [s[3]]
            return all(y not in L or not any(reaches_from(cfg, L, y, u) for u in cfg_back(cfg, h)) for y in bad)
    return False


def cfg_back(cfg, h):
    return [u for u, v in cfg.back if v == h]


def reaches_from(cfg, L, a, u):
    seen, todo = {a}, [a]
    while todo:
        x = todo.pop()
        if x == u:
            return True
        for y in cfg.succ[x]:
            if y in L and y not in seen:
                seen.add(y)
                todo.append(y)
    return False


def engine(ctx, f, h, blocks=100000):
    p = ctx.prog
    m = Reads("server", [])
    m.prog = p
    e = It(p, [m], logs=False)
    e.max_blocks = blocks
    e.deadline = ctx.t0 + 400
    e.rec = recursive_ids(p)
    e.hyp = True
    e.setup(f, h)
    return e


def loop(ctx, fid, h):
    p = ctx.prog
    f = p.F[fid]
    e = engine(ctx, f, h)
    st = St()
    args = arguments(e, p, f, st)
    where = "%s, loop at line %s" % (loc(p, f), f["bl"][h]["l"][1])
    c = consumer(ctx, f, h)
    if c:
        ctx.n("loops decided")
        ctx.sample("%s: each round takes input in %s (%d ways to succeed)" % (where, *c))
        return
    kind = last(re.sub(r"::<[^<>]*>", "", f["d"]))
    try:
        e.run_fn(f, args, st, e.ctx(0, 0, f["id"]), 0, False)
    except Exception as x:
        ctx.n("loops not decided")
        ctx.sample("%s: not decided (%s)" % (where, str(x)[:80]))
        return
    if e.base is None:
        ctx.n("loops not decided")
        ctx.sample("%s: head not reached" % where)
        return
    ctx.n("ways back to a loop head analysed", len(e.backs))
    if not e.backs:
        ctx.n("loops decided")
        ctx.sample("%s: never taken twice" % where)
        return
    dec = [s for s in e.leaf if s in e.dec]
    other = [s for s in e.dec if s not in e.leaf and not is_fixed(s)]
    ways = []
    for s in e.backs:
        if s.tag("got") or s.tag("random"):
            ways.append({"read": True})
            continue
        w = {}
        for l in e.leaf:
            w[l] = measure(e, s, l, e.now(s, l), True)
        ways.append(w)
    # progress: one leaf moving the same way on every path that reads nothing
    rest = [(s, w) for s, w in zip(e.backs, ways) if "read" not in w]
    good = not rest
    for l in dec:
        for sign in ("n+", "n-", "l-", "l+"):
            if rest and all(w[l] and w[l][0] == sign and (sign[1] == "-" or below(e, s, l, w, sign)) for s, w in rest):
                good = True
                how = "%s %s" % (show(l), {"n+": "grows", "n-": "decreases", "l-": "shrinks", "l+": "is filled"}[sign])
    if good:
        ctx.n("loops decided")
        ctx.sample("%s: %s" % (where, how if rest else "reads from the socket or a random source each time"))
        return
    for s, w in rest:
        # nothing that any branch of the loop depends on has changed (or nothing, if a received number is 0)
        same, zero = [], []
        for l in dec:
            if w[l] is None:
                break
            if w[l][0] == "=":
                same.append(l)
            elif w[l][0] in ("n0+", "n0-", "l0+", "l0-") and zeroable(s, w[l][1]):
                zero += w[l][1]
            else:
                break
        else:
            if dec and not (other and opaque_path(e, s)):
                z = sorted({show(t)[:60] for k, t in zero})
                ctx.v("loop/" + kind, "%s: an iteration can end with everything its conditions depend on (%s) unchanged%s" %
                      (where, ", ".join(show(l)[:50] for l in dec[:4]), (" when %s is 0" % ", ".join(z[:3])) if z else ""))
                return
    ctx.n("loops not decided")
    if os.environ.get("SA_DEBUG"):
        print("LOOP", where, [show(x)[:60] for x in other[:4]], [(show(l)[:60], [w[l] and w[l][0] for s, w in rest][:12]) for l in dec][:9])
    ctx.sample("%s: not decided: %s" % (where, [(show(l)[:40], w[l] and w[l][0]) for s, w in rest[:1] for l in dec][:5]))


def opaque_path(e, st):
    """the conditions of this path mention something the analysis does not know"""
    return any(x not in e.leaf and not is_fixed(x) for q in st.facts for x in syms(q))


def below(e, st, l, w, sign):
    """this way round the loop knows that the growing leaf is below something that stays the same"""
    me = l if sign[0] == "n" else length(l)
    for q, v in st.facts.items():
        if q.op == "lt" and type(v) is int:
            for k, (a, b) in enumerate((q.a, q.a[::-1])):
                if v == 1 - k and me in atoms(a) and not any(w.get(s) is None or w[s][0] != "=" for s in syms(b) if s in e.leaf and s is not l):
                    return True
    # widened: the comparison itself was made on the way
    for c in e.lts:
        for a, b in (c.a, c.a[::-1]):
            if me in atoms(a) and not any(w.get(s) is None or w[s][0] != "=" for s in syms(b) if s in e.leaf):
                return True
    return False


def atoms(t):
    return [t] + [x for k, x in lin(t)[1] if k > 0]


def is_fixed(s):
    """a symbol that stands for a value given at the start"""
    q = s.a[0]
    return type(q) is tuple and q[0] in ("arg", "param")


def recursive_ids(p):
    if hasattr(p, "_rec"):
        return p._rec
    succ = {}
    for f in p.j["fns"]:
        if f.get("bl") and f["local"]:
            succ[f["id"]] = {t[1]["i"] for t in (b["t"] for b in f["bl"]) if t[0] == "call" and t[1].get("i") is not None and p.F[t[1]["i"]]["local"]}
    out = {}
    for a in succ:
        seen, todo = set(), list(succ[a])
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += succ.get(x, ())
        if a in seen:
            out[a] = seen
    p._rec = out
    return out


def recursion(ctx, fid):
    p = ctx.prog
    f = p.F[fid]
    e = engine(ctx, f, None)
    st = St()
    args = arguments(e, p, f, st)
    start = [e.load_all(st, a) for a in args]
    try:
        rs = e.run_fn(f, args, st, e.ctx(0, 0, fid), 0, False)
    except Exception as x:
        ctx.n("recursive functions not decided")
        ctx.sample("%s: not decided (%s)" % (loc(p, f), str(x)[:80]))
        return
    kind = last(re.sub(r"::<[^<>]*>", "", f["d"]))
    bytes_ = any("[u8]" in p.tname(f["lt"][1 + i]) or "Vec<u8>" in p.tname(f["lt"][1 + i]) for i in range(f["argc"]))
    for g, vals, s, raw in e.calls:
        ctx.n("recursive calls analysed")
        if g["id"] != fid:
            continue
        ok = False
        pairs = []
        for x, y in zip(start, vals):
            x, y = leaves([x]), leaves([y])
            if len(x) == len(y):
                pairs += zip(x, y)
        for leaf_old, leaf_new in pairs:
            if leaf_old.op != "sym":
                continue
            c, ts = lin(sub(leaf_new, leaf_old))
            if not ts and c > 0 and bounded(s, leaf_old):
                ok = True
            if not ts and c < 0 and positive(s, [(1, leaf_old)]) and bounded(s, leaf_old, False):
                ok = True
        if ok:
            ctx.n("recursive calls bounded")
        elif bytes_:
            ctx.v("recursion/" + kind, "%s calls itself while no counter that is compared with a constant moves: the depth is chosen by the input" % loc(p, f))
            return
        else:
            ctx.n("recursive functions not decided")
            ctx.sample("%s: recursion outside the parsers, not decided" % loc(p, f))
            return
    # the induction hypothesis: a successful call moves on every counter it is lent
    for i in range(f["argc"]):
        t = p.T[f["lt"][1 + i]]
        if t["k"] == "ref" and t.get("mut") and p.T[t["e"]]["k"] == "int":
            for s, v in rs:
                k, _ = unwrap(p, e.load_all(s, v)) if e.load_all(s, v).op == "agg" else ("?", None)
                if k == "no":
                    continue
                new = e.load(s, args[i])
                if new.op == "sym" and type(new.a[0]) is tuple and new.a[0][0] == "phi":
                    continue        # left by a loop that moves it on, which is decided above
                w = measure(e, s, start[i], new, True)
                ctx.n("counters of successful calls compared")
                if w is None or w[0] not in ("n+",):
                    if w and (w[0] == "=" or w[0] == "n0+" and zeroable(s, w[1])):
                        ctx.v("recursion/progress/" + kind, "%s can succeed without moving its counter on: the loops that call it never end" % loc(p, f))
                        return
                    ctx.n("recursive functions not decided")
                    ctx.sample("%s: progress of parameter %d not decided (%s)" % (loc(p, f), i, w and w[0]))
                    return
    ctx.n("recursive functions decided")
    ctx.sample("%s: %d recursive calls, each with a bounded counter moved on" % (loc(p, f), len(e.calls)))


def leaves(vals):
    out = []
    for v in vals:
        while v.op == "vref":
            v = v.a[0]
        if v.op == "agg":
            out += leaves([x for x in v.a[2:] if type(x) is Term])
        else:
            out.append(v)
    return out


LIMIT = 10000


def bounded(st, t, up=True):
    return not up or bool(st.tag("bound:%s" % show(t)))


def scope(p):
    for f in p.j["fns"]:
        if f.get("bl") and f["local"] and "::tests::" not in f["d"]:
            yield f


def work(ctx, kind, fid, h):
    if kind == "loop":
        loop(ctx, fid, h)
    else:
        recursion(ctx, fid)


def run(ctx):
    p = ctx.prog
    jobs = []
    n = 0
    for f in scope(p):
        cfg = p.cfg(f)
        for h in sorted(cfg.heads):
            n += 1
            name, why = for_loop(p, f, cfg, h)
            if name:
                ctx.n("loops driven by a finite iterator")
                ctx.n("loops decided")
            else:
                jobs.append(("loop", f["id"], h))
    ctx.n("loops", n)
    rec = recursive_ids(p)
    ctx.n("recursive functions", len(rec))
    jobs += [("rec", fid, None) for fid in sorted(rec)]
    ctx.floor("loops", 60)
    parallel(ctx, work, jobs)
