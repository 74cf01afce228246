"""Path-sensitive value numbering of ECDSA verification and signing over the ring of big number terms, every path, no input fixed: the
order relations between numbers are recorded per path. Every path to `true` must entail 1 <= r,s <= n-1 and an equation
that is, modulo n, x(z/s*G + r/s*Q) = r over exactly the given hash, key and components (polynomial normal form); every
path that returns a signature must entail r,s != 0, r = x(kG) and s = (z + r*d)/k. The DER encoder is interpreted for
all component lengths with unknown content, the decoder for encodings of all lengths."""
from local import *
from lanes import *
from bigint import *
import run as R

TECHNIQUE = "path-sensitive value numbering with order facts; polynomial normal forms modulo the group order"
RULE = ("verify = true only if 1 <= r,s < n and x(z/s G + r/s Q) mod n = r; sign: r = x(kG) mod n != 0, s = (z + r d)/k mod n != 0; "
        "DER: shortest INTEGERs r, s; decoded components are the INTEGERs' exact contents")
ASSUME = ["curve arithmetic, modular inverse and reduction are uninterpreted (C31)", "signing is followed through two retries"]


def point_op(name, n):
    def h(eng, fr, b, st, f, vals, rty, atys):
        a = [eng.load_all(st, v) for v in vals][:n]
        return [(st, mk("app", name, *[eta(x) for x in a]))]
    return h


def rng_between(eng, fr, b, st, f, vals, rty, atys):
    n = st.tag("ks") + 1
    if n > 3:
        return []
    st.settag("ks", n)
    return [(st, mk("sym", ("k", n)))]


MODELS = {"math::multiply": point_op("pmul", 2), "math::add": point_op("padd", 2), "math::inv": opaque("inv"), "math::rem_euclid": opaque("mod"),
          "Curve::contains": opaque("contains"), "to_ibig_be": opaque("int_be"), "to_ibig_le": opaque("int_le")}


class Eng(BigEngine):
    LOOP_MAX = 400

    def is_rng(self, f):
        return last(f["d"]) == "between" and "rand" in f["d"].lower()

    def virtual(self, fr, b, st, f, vals, rty, atys):
        if self.is_rng(f):
            return rng_between(self, fr, b, st, f, vals, rty, atys)
        return super().virtual(fr, b, st, f, vals, rty, atys)

    def handler(self, f):
        return rng_between if self.is_rng(f) else super().handler(f)


def struct_of(p, ty):
    while p.T[ty]["k"] == "ref":
        ty = p.T[ty]["e"]
    return ty


def kinds(p):
    """the structures of this module, by the names of their fields"""
    out = {}
    for i, t in enumerate(p.T):
        if t["k"] == "adt" and t.get("local") and t["a"] == "struct":
            ns = {n: (j, ty) for j, (n, ty) in enumerate(t["v"][0]["f"])}
            if set(ns) == {"r", "s"}:
                out["sig"] = (i, ns)
            elif set(ns) == {"point", "curve"}:
                out["pub"] = (i, ns)
            elif set(ns) == {"secret", "curve"}:
                out["priv"] = (i, ns)
            elif {"p", "n", "g", "a", "b"} <= set(ns):
                out["curve"] = (i, ns)
            elif set(ns) == {"x", "y"} and all(last(p.T[ty].get("d", "")) == "IBig" for _, ty in ns.values()):
                out["point"] = (i, ns)
    return out


def roots(p, pred):
    c = [f for f in p.j["fns"] if f["local"] and f.get("bl") and f["k"] == "item" and pred(f)]
    ids = {f["id"] for f in c}
    called = set()
    for f in c:
        for b in f["bl"]:
            t = b["t"]
            if t[0] == "call" and t[1].get("i") in ids and t[1]["i"] != f["id"]:
                called.add(t[1]["i"])
    return [f for f in c if f["id"] not in called]


def bytes_like(p, ty):
    T = p.T[struct_of(p, ty)]
    return T["k"] in ("slice", "array") or last(T.get("d", "")) == "Vec"


def bounds(st, x, n, ring):
    """(a lower bound, is x < n known) of the number x on this path"""
    lo, below, not0 = None, False, False
    for y, o in relations(st, x):
        if type(o) is frozenset:
            if EQ in o and val(y) == 0:
                not0 = True
            if {GT, EQ} <= o and y is n:
                below = True
            continue
        v = val(y)
        if v is not None:
            if o == GT:
                lo = max(lo if lo is not None else v + 1, v + 1)
            elif o == EQ:
                lo = max(lo if lo is not None else v, v)
            if v == 0 and o != EQ:
                not0 = True
        if y is n and o == LT or y.op == "app" and y.a[0] == "big-" and y.a[1] is n and (val(y.a[2]) == 1 and o in (LT, EQ)):
            below = True
        if o == EQ and v is None:
            if y.op == "app" and y.a[0] == "mod" and y.a[2] is n:
                below = True
                lo = max(lo if lo is not None else 0, 0)
    if lo == 0 and not0:
        lo = 1
    return lo, below, not0


def run(ctx):
    p = ctx.prog
    K = kinds(p)
    if not {"sig", "pub", "priv", "curve", "point"} <= set(K):
        ctx.incomplete.append("structures not found: %s" % sorted({"sig", "pub", "priv", "curve", "point"} - set(K)))
        return
    sig, pub, priv = K["sig"][0], K["pub"][0], K["priv"][0]

    def takes(f, *tys):
        have = [struct_of(p, t) for t in f["lt"][1:1 + f["argc"]]]
        return all(t in have for t in tys) and any(bytes_like(p, t) for t in f["lt"][1:1 + f["argc"]])

    vs = roots(p, lambda f: takes(f, sig, pub) and p.T[f["lt"][0]]["k"] == "bool")
    ss = roots(p, lambda f: takes(f, priv) and sig in [struct_of(p, t) for t in p.T[f["lt"][0]].get("args", ()) if type(t) is int] + [f["lt"][0]])
    for f in vs:
        verify(ctx, p, f, K)
    for f in ss:
        sign(ctx, p, f, K)
    if not vs:
        ctx.incomplete.append("no verification function found")
    if not ss:
        ctx.incomplete.append("no signing function found")
    der(ctx, p, K)
    for w in ("accepting paths with the whole equation", "components with both bounds", "signing paths with nonzero components", "DER encodings analysed", "DER decodings analysed"):
        ctx.floor(w)


def setup(p, f, K, e, st):
    out, args = {}, []
    for i in range(f["argc"]):
        ty = f["lt"][1 + i]
        base = struct_of(p, ty)
        for k in ("sig", "pub", "priv"):
            if base == K[k][0]:
                s = mk("sym", ("arg", k))
                out[k] = s
                args.append(mk("vref", s) if p.T[ty]["k"] == "ref" else s)
                break
        else:
            if bytes_like(p, ty) and "hash" not in out:
                s = arr("hash", 32)
                out["hash"] = s
                args.append(mk("vref", s) if p.T[ty]["k"] == "ref" else s)
            else:
                args.append(arg(e, f, i, st))
    return out, args


def fld(K, k, s, name):
    return mk("fld", s, 0, K[k][1][name][0])


def verify(ctx, p, f, K):
    e = Eng(p, MODELS)
    e.max_blocks = 3000000
    st = St()
    a, args = setup(p, f, K, e, st)
    name = last(f["d"])
    try:
        rs = call(e, f, args, st)
    except Exception as x:
        ctx.incomplete.append("%s: %s: %s" % (f["d"], type(x).__name__, str(x)[:150]))
        return
    ctx.n("verification functions")
    curve = fld(K, "pub", a["pub"], "curve")
    n, G = fld(K, "curve", curve, "n"), fld(K, "curve", curve, "g")
    Q = fld(K, "pub", a["pub"], "point")
    r, s = fld(K, "sig", a["sig"], "r"), fld(K, "sig", a["sig"], "s")
    z = mk("app", "int_be", a["hash"])
    ring = Ring(n)
    xi = K["point"][1]["x"][0]
    inv = mk("app", "inv", s, n)
    R_ = mk("app", "padd", mk("app", "pmul", G, mk("app", "big*", z, inv)), mk("app", "pmul", Q, mk("app", "big*", r, inv)))
    want = ring.addp(ring.poly(mk("fld", R_, 0, xi)), ring.poly(r), -1)
    neg = ring.addp({}, want, -1)
    for st, v in rs:
        if v.op not in ("i", "b"):
            ctx.n("results undecided")
            ctx.incomplete.append("%s: the result %s is not decided by the path" % (f["d"], show(v, 2)[:100]))
            continue
        if not v.a[0]:
            ctx.n("rejecting paths")
            continue
        ctx.n("accepting paths")
        for nm, c in (("r", r), ("s", s)):
            lo, below, not0 = bounds(st, c, n, ring)
            if lo is None or lo < 1:
                ctx.v("low:%s" % nm, "%s accepts a signature whose %s may be %s" % (loc(p, f), nm, "zero" if lo == 0 else "zero or negative"))
            elif not below:
                ctx.v("high:%s" % nm, "%s accepts a signature whose %s may be the group order or larger" % (loc(p, f), nm))
            else:
                ctx.n("components with both bounds")
        eqs = [(k.a[0], k.a[1]) for k, o in st.facts.items() if k.op == "icmp" and o == EQ and k.a[0].id <= k.a[1].id]
        ok = False
        for x, y in eqs:
            d = ring.addp(ring.poly(x), ring.poly(y), -1)
            if d == want or d == neg:
                ok = True
        if ok:
            ctx.n("accepting paths with the whole equation")
            continue
        if any("phi" in str(u) for u in ring.unknown) or any(undet(x) for q in eqs for x in q):
            ctx.n("equations undecided")
            ctx.incomplete.append("%s: an equation on an accepting path could not be followed" % f["d"])
            continue
        shown = "; ".join("%s = %s" % (show(x, 6)[:160], show(y, 6)[:80]) for x, y in eqs) or "nothing compared"
        ctx.v("equation:" + name, "%s accepts a signature without the equation x(z/s G + r/s Q) mod n = r: %s" % (loc(p, f), shown))
    ctx.sample("%s: %d paths" % (loc(p, f), len(rs)))


KNOWN = {"big", "big+", "big-", "big*", "big%", "big/", "big&", "big|", "big^", "big<<", "big>>", "big**", "bigneg", "mod", "inv", "pmul", "padd", "int_be", "int_le", "contains"}


def undet(t, seen=None):
    seen = seen if seen is not None else set()
    if type(t) is not Term or t in seen:
        return False
    seen.add(t)
    if t.op in ("stale", "uninit", "deref") or t.op == "sym" and t.a[0][0] in ("phi", "havoc"):
        return True
    if t.op == "app" and t.a[0] not in KNOWN:
        return True
    return any(undet(x, seen) for x in t.a)


def sign(ctx, p, f, K):
    e = Eng(p, MODELS)
    e.max_blocks = 3000000
    st = St()
    a, args = setup(p, f, K, e, st)
    try:
        rs = call(e, f, args, st)
    except Exception as x:
        ctx.incomplete.append("%s: %s: %s" % (f["d"], type(x).__name__, str(x)[:150]))
        return
    ctx.n("signing functions")
    curve = fld(K, "priv", a["priv"], "curve")
    n, G, d = fld(K, "curve", curve, "n"), fld(K, "curve", curve, "g"), fld(K, "priv", a["priv"], "secret")
    z = mk("app", "int_be", a["hash"])
    ring = Ring(n)
    xi = K["point"][1]["x"][0]
    for st, v in rs:
        k, w = unwrap(p, v)
        if k == "no":
            ctx.n("signing paths that fail")
            continue
        w = e.load_all(st, w) if w is not None else v
        if w.op != "agg" or w.a[0] != K["sig"][0]:
            ctx.n("signing results undecided")
            ctx.incomplete.append("%s: result %s" % (f["d"], show(v, 2)[:100]))
            continue
        r, s = w.a[2 + K["sig"][1]["r"][0]], w.a[2 + K["sig"][1]["s"][0]]
        ctx.n("signing paths")
        kk = mk("sym", ("k", st.tag("ks")))
        bad = False
        for nm, c in (("r", r), ("s", s)):
            lo, below, not0 = bounds(st, c, n, ring)
            if not (not0 or lo is not None and lo >= 1):
                ctx.v("zero:" + nm, "%s emits a signature whose %s may be zero (%s)" % (loc(p, f), nm, show(c, 4)[:120]))
                bad = True
        if not bad:
            ctx.n("signing paths with nonzero components")
        wr = ring.poly(mk("fld", mk("app", "pmul", G, kk), 0, xi))
        ws = ring.mulp(ring.addp(ring.poly(z), ring.mulp(wr, ring.poly(d))), ring.atom(mk("app", "inv", ring.canon(kk))))
        for nm, c, q in (("r", r, wr), ("s", s, ws)):
            if ring.poly(c) == q:
                ctx.n("signing equations")
            elif undet(c):
                ctx.incomplete.append("%s: component %s could not be followed: %s" % (f["d"], nm, show(c, 4)[:150]))
            else:
                ctx.v("value:" + nm, "%s computes %s as %s" % (loc(p, f), nm, show(c, 8)[:250]))
    ctx.sample("%s: %d paths" % (loc(p, f), len(rs)))


# ---- DER

def der(ctx, p, K):
    sig = K["sig"][0]
    enc = roots(p, lambda f: f["argc"] == 1 and struct_of(p, f["lt"][1]) == sig and bytes_like(p, f["lt"][0]))
    dec = roots(p, lambda f: f["argc"] == 1 and bytes_like(p, f["lt"][1]) and p.T[f["lt"][0]]["k"] == "adt" and last(p.T[f["lt"][0]]["d"]) == "Result" and holds(p, p.T[f["lt"][0]]["args"][0], sig))
    S = mk("sym", ("arg", "sig"))
    r, s = (mk("fld", S, 0, K["sig"][1][x][0]) for x in "rs")
    lens = [1, 2, 30, 31, 32] if ctx.tier == "quick" else list(range(1, 33))
    for f in enc:
        for lr in lens:
            for ls in lens:
                R1, S1 = ([mk("sym", ("arg", nm, n, i)) for i in range(n)] for nm, n in (("r", lr), ("s", ls)))

                def to_bytes(order):
                    def h(eng, fr, b, st, g, vals, rty, atys):
                        v = eng.load_all(st, vals[0])
                        for t, bs in ((r, R1), (s, S1)):
                            if v is t:
                                return [(st, seq_of(bs if order else bs[::-1]))]
                        return [(st, mk("app", g["d"], v))]
                    return h
                e = BigEngine(p, {"UBig>::to_be_bytes": to_bytes(1), "UBig>::to_le_bytes": to_bytes(0)})
                st = St()
                try:
                    rs = call(e, f, [mk("vref", S) if p.T[f["lt"][1]]["k"] == "ref" else S], st)
                except Exception as x:
                    ctx.incomplete.append("%s: %s: %s" % (f["d"], type(x).__name__, str(x)[:150]))
                    return
                ctx.n("DER encodings analysed")
                for st, v in rs:
                    for hr in (0, 1):
                        for hs in (0, 1):
                            if not possible(st, R1[0], hr) or not possible(st, S1[0], hs):
                                continue
                            body = []
                            for bs, h in ((R1, hr), (S1, hs)):
                                c = ([I(0)] if h else []) + bs
                                body += [I(2), I(len(c))] + c
                            want = [I(0x30), I(len(body))] + body
                            got = known_elems(v) if v.op in ("seq", "sub") else None
                            if got is None:
                                ctx.n("DER encodings undecided")
                                ctx.incomplete.append("%s: result %s" % (f["d"], show(v, 3)[:100]))
                                continue
                            got = [I(x) if type(x) is int else g for g, x in ((g, e.lookup(st, g)) for g in got)]
                            if len(got) == len(want) and all(x is y for x, y in zip(got, want)):
                                ctx.n("DER encodings exact")
                            else:
                                ctx.v("der:%s" % last(f["d"]), "%s: components of %d and %d bytes with top bits %d and %d are encoded as %s" % (
                                    loc(p, f), lr, ls, hr, hs, " ".join(show(g, 1) for g in got[:8]) + " .. (%d bytes, expected %d)" % (len(got), len(want))))
    for f in dec:
        for lr, ls in [(1, 1), (32, 32), (33, 32), (32, 33), (33, 33), (31, 32), (32, 5), (1, 33), (40, 33)]:
            R1, S1 = ([mk("sym", ("arg", nm, i)) for i in range(n)] for nm, n in (("r", lr), ("s", ls)))
            body = [I(2), I(lr)] + R1 + [I(2), I(ls)] + S1
            buf = seq_of([I(0x30), I(len(body))] + body)
            e = BigEngine(p, {"to_ibig_be": opaque("int_be", norm=True), "to_ibig_le": opaque("int_le", norm=True)})
            try:
                rs = call(e, f, [mk("vref", buf) if p.T[f["lt"][1]]["k"] == "ref" else buf], St())
            except Exception as x:
                ctx.incomplete.append("%s: %s: %s" % (f["d"], type(x).__name__, str(x)[:150]))
                return
            ctx.n("DER decodings analysed")
            for st, v in rs:
                k, w = unwrap(p, v)
                if k != "ok":
                    ctx.n("DER decodings that fail")
                    continue
                w = find_sig(e.load_all(st, w), sig)
                if w is None:
                    ctx.n("DER decodings undecided")
                    continue
                for nm, c, bs in (("r", w.a[2 + K["sig"][1]["r"][0]], R1), ("s", w.a[2 + K["sig"][1]["s"][0]], S1)):
                    ks = None
                    if c.op == "app" and c.a[0] == "int_be":
                        ks = known_elems(c.a[1])
                    strip = list(bs)
                    while ks is not None and len(ks) < len(strip) and e.lookup(st, strip[0]) == 0:
                        strip = strip[1:]
                    if ks is not None and len(ks) == len(strip) and all(x is y for x, y in zip(ks, strip)):
                        ctx.n("DER components exact")
                    elif undet(c):
                        ctx.n("DER decodings undecided")
                    else:
                        ctx.v("decode:%s" % nm, "%s: %s of an encoding with %d and %d byte INTEGERs is read as %s" % (loc(p, f), nm, lr, ls, show(c, 2)[:120]))


def holds(p, ty, sig):
    T = p.T[ty]
    if ty == sig:
        return True
    return T["k"] == "tuple" and any(holds(p, x, sig) for x in T.get("args", T.get("e", T.get("f", []))) if type(x) is int) if T["k"] == "tuple" else False


def find_sig(v, sig):
    if v.op == "agg" and v.a[0] == sig:
        return v
    if v.op in ("agg", "tup"):
        for x in v.a:
            if type(x) is Term:
                w = find_sig(x, sig)
                if w is not None:
                    return w
    return None


def possible(st, b, high):
    """may the byte b (not zero) have its top bit as given, after what the path knows about it?"""
    vals = range(128, 256) if high else range(1, 128)
    fs = [(t, v) for t, v in st.facts.items() if mentions(t, b)]
    for x in vals:
        if all(holds_fact(ev(t, b, x), v) for t, v in fs):
            return True
    return False


def holds_fact(w, v):
    if w is None:
        return True
    return w == v if type(v) is int else w not in v


def mentions(t, b):
    return t is b or any(type(x) is Term and mentions(x, b) for x in t.a)


def ev(t, b, x):
    if t is b:
        return x
    if t.op in ("i", "b"):
        return int(t.a[0])
    if t.op == "not":
        v = ev(t.a[0], b, x)
        return None if v is None else 1 - v
    if t.op in ("eq", "lt"):
        p, q = ev(t.a[0], b, x), ev(t.a[1], b, x)
        return None if p is None or q is None else int(p == q if t.op == "eq" else p < q)
    if t.op == "trunc":
        v = ev(t.a[1], b, x)
        return None if v is None else v & ((1 << t.a[0]) - 1)
    if t.op == "bin":
        p, q = ev(t.a[1], b, x), ev(t.a[2], b, x)
        if p is None or q is None:
            return None
        return {"Shr": lambda: p >> q, "Shl": lambda: p << q, "BitAnd": lambda: p & q, "BitOr": lambda: p | q, "BitXor": lambda: p ^ q,
                "Ge": lambda: int(p >= q), "Gt": lambda: int(p > q), "Le": lambda: int(p <= q), "Lt": lambda: int(p < q), "Ne": lambda: int(p != q),
                "Add": lambda: p + q, "Sub": lambda: p - q, "Div": lambda: p // q if q else None, "Rem": lambda: p % q if q else None}.get(t.a[0], lambda: None)()
    return None
