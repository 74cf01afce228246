"""(1) Abstract interpretation of both handshake roles: the hello random, the public key share and the certificate request
context each role sends must be built from draws of the configured generator type (URandomRng; the seeded one only where
the configuration selects it), long enough, and of draws not shared between these uses; every signature's generator must
be URandomRng under every configuration. (2) Value analysis of URandomRng's own methods: what they return must come from
bytes read from /dev/urandom (or /dev/random) within the call. (3) Value analysis of Ecdsa::sign, called twice on one
signer made by each of its secure constructors: each signature must be computed from a draw of its own, of 32 bytes."""
from local import *
from lanes import *
import monitors as MO
import tls_model
import run as R

TECHNIQUE = "abstract interpretation of both roles and value analysis of the generator and the signer (provenance of terms)"
RULE = ("hello random: 32 distinct bytes of URandomRng draws; key share = multiply(G, draw of 32 bytes); request context from a draw of its own; "
        "URandomRng returns bytes read from /dev/urandom in this call; each Ecdsa::sign consumes its own draw")
ASSUME = ["/dev/urandom is a sound random source", "PRNG::Simple is an explicit opt-out for the server's hello values"]

GOOD = "URandomRng"


def rng_syms(t):
    """random draws in a term: {(source, symbol)}"""
    out = set()
    for s in syms(t):
        n = s.a[0]
        x = n[0] if type(n) is tuple else n
        if type(x) is str and x.startswith("rng:"):
            out.add((x.split(":")[1], s))
    return out


class C10(MO.Track):
    def __init__(self, side, scen=()):
        super().__init__(side, scen)
        self.sizes = {}
        self.simple = side == "server" and self.scen.get("prng_type", "Simple") != "URandom"

    def source(self, eng, fr, what, srcs):
        for s in srcs:
            if s == "?":
                self.n("sources undecided")
            elif s != GOOD and not self.simple:
                self.v(eng, fr, what + ":source", "the %s is drawn from %s" % (what, s))
            else:
                self.n("values from %s" % s)

    def on_random(self, eng, st, fr, val, src, size, what):
        self.sizes[val] = (size, what)
        self.n("random draws")

    def use(self, eng, st, fr, what, draws):
        """draws: the symbols one use consumes; no other use may consume them"""
        for d in draws:
            for other in ("hello random", "ephemeral key", "certificate request context"):
                if other != what:
                    o = st.m("use:" + other)
                    if o is not None and d in o.a:
                        self.v(eng, fr, what + ":shared", "the %s reuses the random draw of the %s" % (what, other))
        if draws:
            st.mset("use:" + what, mk("use", *sorted(draws, key=lambda t: t.id)))

    def field(self, eng, st, fr, what, ts, least=None):
        """a list of byte terms that must all be random"""
        seen, draws = set(), set()
        for t in ts:
            if t.op == "i" or eng.lookup(st, t) is not None and type(eng.lookup(st, t)) is int:
                self.v(eng, fr, what + ":constant", "a byte of the %s is the constant %s" % (what, show(t, 1)))
                return
            if t.op == "elem" and t.a[0].op == "sym" and rng_syms(t.a[0]):
                (src, s), = rng_syms(t.a[0])
                if (s, t.a[1]) in seen:
                    self.v(eng, fr, what + ":repeated", "two bytes of the %s are the same random byte" % what)
                    return
                seen.add((s, t.a[1]))
                draws.add((src, s))
                continue
            if MO.has_phi(t) or not syms(t):
                self.n("fields undecided")
                return
            if rng_syms(t):
                draws |= rng_syms(t)
                continue
            self.v(eng, fr, what + ":not-random", "the %s is not drawn from the random source: %s" % (what, show(t, 3)[:120]))
            return
        self.source(eng, fr, what, {s for s, _ in draws})
        self.use(eng, st, fr, what, {s for _, s in draws})
        self.n("%s fields from fresh draws" % what)

    def pieces(self, c, a, b):
        return [elem(c, I(i)) for i in range(a, b)]

    def hello(self, eng, st, fr, msg):
        self.field(eng, st, fr, "hello random", self.pieces(msg, 6, 38))

    def on_called(self, eng, st, fr, f, vals, rv):
        if last(f["d"]) != "multiply":
            return
        args = [eng.load_all(st, v) for v in vals]
        draws, undec = set(), False
        for y in args:
            draws |= rng_syms(y)
            undec = undec or MO.has_phi(y)
        if not draws:
            if undec or any(s.a[0][0] == "param" for y in args for s in syms(y) if type(s.a[0]) is tuple):
                self.n("key shares undecided")
            else:
                self.v(eng, fr, "ephemeral key:constant", "the ephemeral key is not drawn from the random source: multiply(%s)" % ", ".join(show(y, 2) for y in args)[:200])
            return
        self.source(eng, fr, "ephemeral key", {s for s, _ in draws})
        for src, s in draws:
            z = self.sizes.get(s)
            if z and z[0].op == "i" and z[0].a[0] < 32:
                self.v(eng, fr, "ephemeral key:size", "the ephemeral key is drawn from only %d bytes" % z[0].a[0])
        self.use(eng, st, fr, "ephemeral key", {s for _, s in draws})
        self.n("ephemeral key fields from fresh draws")

    def on_transcript(self, eng, st, fr, before, added, dyn, ref):
        super().on_transcript(eng, st, fr, before, added, dyn, ref)
        if not dyn:
            return
        ph = self.phase(st)
        if self.side == "client" and len(ph) == 2 and ph[-1] == 2:
            self.hello(eng, st, fr, before)
        if self.side == "server" and len(ph) == 2 and ph[-1] == 2:
            self.hello(eng, st, fr, added)
        if self.side == "server" and ph and ph[-1] == 13:
            n = eng.lookup(st, elem(added, I(4)))
            if type(n) is not int:
                self.n("fields undecided")
            elif n:
                self.field(eng, st, fr, "certificate request context", self.pieces(added, 5, 5 + n))

    def on_sign(self, eng, st, fr, key, hash, src):
        if src == "?":
            self.n("signers undecided")
        elif src != GOOD:
            self.v(eng, fr, "signing nonce:source", "a signature's nonce is drawn from %s" % src)
        else:
            self.n("signatures with nonces from " + GOOD)


# ---------------------------------------------------------------------- the generator itself
class RandEngine(LaneEngine):
    """reads from files yield fresh bytes that remember the path"""

    def __init__(self, prog, models=(), **kw):
        super().__init__(prog, models, **kw)
        self.intr = dict(self.intr)
        self.reads = 0
        self.intr.update({"File::open": m_open, "BufReader::with_capacity": m_wrap, "BufReader::new": m_wrap, "Read::read_exact": m_read,
                          "Read::read_exact@BufReader": m_read, "Read::read_exact@File": m_read, "fs::read": m_open,
                          "Read::by_ref": m_wrap, "Read::take": m_wrap0})

    def handler(self, f):
        if not f["local"]:
            k = stdkey(f["d"])
            for s in ("File::open", "with_capacity", "read_exact"):
                if f["d"].endswith("::" + s) and k not in self.intr:
                    return {"File::open": m_open, "with_capacity": m_wrap, "read_exact": m_read}[s]
        return super().handler(f)


def okof(eng, rty, v):
    return mk("agg", rty, 0, v)


def m_open(eng, fr, b, st, f, vals, rty, atys):
    p = eng.load_all(st, vals[0])
    return [(st, okof(eng, rty, mk("file", p)))]


def m_wrap(eng, fr, b, st, f, vals, rty, atys):
    return [(st, mk("reader", eng.load_all(st, vals[-1])))]


def m_wrap0(eng, fr, b, st, f, vals, rty, atys):
    return [(st, mk("reader", eng.load_all(st, vals[0])))]


def m_read(eng, fr, b, st, f, vals, rty, atys):
    r = eng.load_all(st, vals[0])
    path = None
    t = r
    while t.op == "reader":
        t = t.a[0]
    if t.op == "file":
        path = const_bytes(t.a[0])
    n = st.tag("nread")
    st.settag("nread", n + 1)
    w = std_model.mref(eng, st, vals[1])
    L = length(eng.load(st, w))
    s = mk("sym", ("read", path, n, show(L)))
    if L is not None:
        set_len(s, L)
    if w.op == "ref":
        w = mk("slm", I(0), L, *w.a)
    eng.store(st, w, s)
    R_ = eng.p.T[rty]
    return [(st, okof(eng, rty, mk("agg", R_["args"][0], 0) if R_.get("args") else mk("unit")))]


def reads(t):
    return {s for s in syms(t) if type(s.a[0]) is tuple and s.a[0][0] == "read"}


def generator(ctx):
    p = ctx.prog
    impl = {}
    for f in p.j["fns"]:
        if f.get("bl") and f["local"] and f["k"] == "item" and " as " in f["d"] and "RngCore" in f["d"] and GOOD in f["d"].split(" as ")[0]:
            impl[last(f["d"])] = f
    if not {"bytes", "between"} <= set(impl):
        ctx.incomplete.append("URandomRng's methods not found")
        return
    jobs = [("bytes", [I(n)]) for n in (1, 16, 32, 64)] + [("between", [I(1), I(32)]), ("between", [I(0), I(32)])]
    for name, args in jobs:
        f = impl[name]
        what = "%s::%s(%s)" % (GOOD, name, ", ".join(show(a) for a in args))
        e = RandEngine(p, {"::to_ibig_be": opaque("to_ibig_be"), "::to_ibig_le": opaque("to_ibig_le"), "::to_u64_le": opaque("to_u64_le")})
        st = St()
        try:
            sty = e.p.T[f["lt"][1]]["e"]
            st.mem[("self",)] = mk("sym", ("arg", "self"))
            s = p.T[sty]
            if s["k"] == "adt" and s["a"] == "struct" and not s["v"][0]["f"]:
                st.mem[("self",)] = mk("agg", sty, 0)
            rs = call(e, f, [mk("ref", ("self",))] + args, st)
        except Exception as x:
            ctx.incomplete.append("%s: %s: %s" % (what, type(x).__name__, str(x)[:200]))
            continue
        for st, v in rs:
            v = e.load_all(st, v)
            ctx.n("generator results")
            rd = reads(v)
            srcs = {r.a[0][1] for r in rd}
            bad = srcs - {b"/dev/urandom", b"/dev/random"}
            if any(x is not None for x in bad):
                ctx.v("generator/%s/source" % name, "%s (%s) returns bytes read from %s" % (what, loc(p, f), sorted(map(str, bad))))
                continue
            if bad:
                ctx.incomplete.append(what + ": file not determined")
                continue
            if name == "bytes":
                n = args[0].a[0]
                L = length(v)
                if L.op == "i" and L.a[0] != n:
                    ctx.v("generator/bytes/length", "%s (%s) returns %d bytes" % (what, loc(p, f), L.a[0]))
                    continue
                es = [elem(v, I(i)) for i in range(n)]
                if any(x.op == "i" for x in es):
                    ctx.v("generator/bytes/constant", "%s (%s): byte %d is the constant %s" % (what, loc(p, f), [x.op for x in es].index("i"), show([x for x in es if x.op == "i"][0])))
                    continue
                if any(not reads(x) for x in es):
                    if any(undetermined(x) or x.op not in ("elem",) for x in es if not reads(x)):
                        ctx.incomplete.append(what + ": value not determined: " + show(v, 3)[:150])
                    else:
                        ctx.v("generator/bytes/origin", "%s (%s) returns bytes that were not read from the system's source: %s" % (what, loc(p, f), show(v, 3)[:150]))
                    continue
                if len(set(es)) < len(es):
                    ctx.v("generator/bytes/repeated", "%s (%s) returns the same random byte twice" % (what, loc(p, f)))
                    continue
            elif rd and narrow(v):
                ctx.v("generator/between/entropy", "%s (%s) computes its value from only %d random byte(s)" % (what, loc(p, f), narrow(v)))
                continue
            elif not rd:
                if v.op == "i" or not syms(v):
                    ctx.v("generator/between/constant", "%s (%s) returns a constant: %s" % (what, loc(p, f), show(v, 3)[:150]))
                elif all(s.a[0][0] == "arg" for s in syms(v)):
                    ctx.v("generator/between/state", "%s (%s) returns a value computed from the generator's own state, not read from the system's source" % (what, loc(p, f)))
                else:
                    ctx.incomplete.append(what + ": value not determined: " + show(v, 3)[:150])
                continue
            ctx.n("generator results from the system's source")
            ctx.sample("%s: %s" % (what, show(v, 3)[:140]))


def narrow(t, d=8):
    """the number of bytes of the widest integer in t made of read bytes, if known and less than 32"""
    if t.op == "app" and str(t.a[0]).startswith("to_ibig"):
        L = length(t.a[1])
        return L.a[0] if L is not None and L.op == "i" and L.a[0] < 32 else 0
    ns = [narrow(x, d - 1) for x in t.a if type(x) is Term and reads(x)] if d else []
    return max(ns) if ns and all(ns) else 0


# ---------------------------------------------------------------------- the signer
def signer(ctx):
    p = ctx.prog
    sign = [f for f in p.j["fns"] if f.get("bl") and f["local"] and f["k"] == "item" and f["d"].endswith("Ecdsa::sign")]
    if len(sign) != 1:
        ctx.incomplete.append("Ecdsa::sign not found")
        return
    f = sign[0]
    st_ = p.T[f["lt"][1]].get("e")
    ctors = [g for g in p.j["fns"] if g.get("bl") and g["local"] and g["k"] == "item" and g["argc"] == 0 and g["lt"][0] == st_]
    used = 0
    for g in ctors:
        count = [0]

        def draw(kind):
            def h(eng, fr, b, st, fn, vals, rty, atys):
                r = eng.load_all(st, vals[0])
                src = eng.p.T[r.a[0]].get("d", "?").split("::")[-1] if r.op == "agg" else "?"
                n = st.tag("draws")
                if n >= 4:
                    return []       # four draws in one history are enough
                st.settag("draws", n + 1)
                return [(st, mk("sym", ("draw", n, src, show(vals[-1], 1))))]
            return h
        def attempt(eng, fr, b, st, fn, vals, rty, atys):
            n = st.tag("attempts")
            if n >= 6:
                return []
            st.settag("attempts", n + 1)
            return opaque("multiply")(eng, fr, b, st, fn, vals, rty, atys)
        e = LaneEngine(p, {"::between": draw("between"), "::multiply": attempt, "::inv": opaque("inv"), "::to_ibig_be": opaque("to_ibig_be"), "::rem_euclid": opaque("rem_euclid")})
        st = St()
        try:
            (st, s), = call(e, g, [], st)
            st.mem[("signer",)] = s
            states = [(st, None)]
            for k in (1, 2):
                nxt = []
                for st, prev in states:
                    n0 = st.tag("draws")
                    key, h = mk("sym", ("arg", "key%d" % k)), set_len(mk("sym", ("arg", "hash%d" % k)), I(32))
                    for s2, v in call(e, f, [mk("ref", ("signer",)), mk("vref", key), mk("vref", h)], st.copy()):
                        kd, w = unwrap(p, v)
                        if kd != "ok":
                            continue
                        w = e.load_all(s2, w)
                        dr = {x for x in syms(w) if type(x.a[0]) is tuple and x.a[0][0] == "draw"}
                        for x in dr:
                            if x.a[0][2] not in (GOOD, "?"):
                                ctx.n("signatures of the seeded signer (tests only)")
                        if any(x.a[0][2] not in (GOOD, "?") for x in dr):
                            continue
                        used += 1
                        ctx.n("signatures analysed")
                        fresh = {x for x in dr if x.a[0][1] >= n0}
                        if not dr and not all(type(x.a[0]) is tuple and x.a[0][0] == "arg" for x in syms(w)):
                            ctx.incomplete.append("sign: value not determined: " + show(w, 3)[:150])
                        elif not fresh:
                            ctx.v("signer/reused", "%s computes signature %d without a draw of its own%s: %s" % (
                                loc(p, f), k, " (it reuses the nonce of the previous one)" if dr else "", show(w, 4)[:200]))
                        elif dr - fresh:
                            ctx.v("signer/old", "%s mixes a nonce of an earlier signature into signature %d" % (loc(p, f), k))
                        else:
                            small = [x for x in fresh if x.a[0][3].isdigit() and int(x.a[0][3]) < 32]
                            if small:
                                ctx.v("signer/size", "%s draws its nonce from only %s bytes" % (loc(p, f), small[0].a[0][3]))
                            ctx.n("signatures with a draw of their own")
                            nxt.append((s2, None))
                states = nxt[:3]
        except Exception as x:
            ctx.incomplete.append("%s / Ecdsa::sign: %s: %s" % (last(g["d"]), type(x).__name__, str(x)[:200]))
    if not used:
        ctx.incomplete.append("no signature analysed")


def run(ctx):
    generator(ctx)
    signer(ctx)
    R.handshakes(ctx, C10, few=3)
    for w in ("generator results from the system's source", "signatures with a draw of their own", "hello random fields from fresh draws",
              "ephemeral key fields from fresh draws", "signatures with nonces from " + GOOD, "certificate request context fields from fresh draws"):
        ctx.floor(w)
