"""Path analysis of every function that combines a received key share entry with a private key (found by its types: it takes
a structure holding a NamedGroup and the share's bytes, and reaches a scalar multiplication), from an arbitrary entry and an
arbitrary key: on every path to the multiplication the group must be known to be X25519 and the share to have 32 bytes, and
no path may return success for which the multiplication could have given zero. A path excludes zero if what it has tested
about the product contradicts the product being zero (the tested expression is evaluated for the zero value)."""
from local import *
from lanes import *
import run as R

TECHNIQUE = "exhaustive path analysis over symbolic terms; zero product refuted by evaluating the path condition"
RULE = "multiply(share, key): group(share) = X25519 and len(share) = 32 on the path; success only if the path condition is false for a zero product"
ASSUME = ["the scalar multiplication itself is uninterpreted (C31)"]

SHARE = {"X25519": (0x1d, 32)}
KDF = ("sha256", "sha384", "sha_x", "Hkdf::expand", "Hkdf::extract", "Hmac::result", "Hmac::update")
MUL = ("multiply", "x25519")


def entry_type(p):
    out = {}
    for i, t in enumerate(p.T):
        if t["k"] == "adt" and t.get("local") and t["a"] == "struct":
            fs = t["v"][0]["f"]
            g = [j for j, (n, ty) in enumerate(fs) if last(p.T[ty].get("d", "")) == "NamedGroup"]
            o = [j for j, (n, ty) in enumerate(fs) if last(p.T[ty].get("d", "")) == "Vec" or p.T[ty]["k"] in ("array",) or p.T[ty]["k"] == "ref" and p.T[p.T[ty]["e"]]["k"] == "slice"]
            if len(g) == 1 and len(o) == 1:
                out[i] = (g[0], o[0])
    return out


def reaches(p, f, pred, depth=4, seen=None):
    seen = seen if seen is not None else set()
    if f["id"] in seen or not f.get("bl") or depth == 0:
        return False
    seen.add(f["id"])
    for b in f["bl"]:
        t = b["t"]
        if t[0] == "call" and t[1].get("i") is not None:
            g = p.F[t[1]["i"]]
            if pred(g) or g["local"] and reaches(p, g, pred, depth - 1, seen):
                return True
    return False


class Z:
    """the value of an expression if the product m is zero; None when it is not determined"""

    def __init__(self, m):
        self.m, self.memo = m, {}

    def zero(self, t):
        """is t a (number or byte string) value that is zero when m is?"""
        if t is self.m:
            return True
        if t.op in ("fld", "vref"):
            return self.zero(t.a[0])
        if t.op == "app" and type(t.a[0]) is str and any(type(x) is Term and self.has(x) for x in t.a[1:]):
            return True     # a conversion of the product
        if t.op == "upd":
            return (self.zero(t.a[0]) or self.zeros(t.a[0])) and self.ev(t.a[2]) == 0
        if t.op == "seq":
            k = known_elems(t)
            return k is not None and all(self.ev(x) == 0 for x in k)
        if t.op == "sub" or t.op == "trunc":
            return self.zero(t.a[0] if t.op == "sub" else t.a[1])
        return False

    def has(self, t):
        return t is self.m or any(type(x) is Term and self.has(x) for x in t.a)

    def ev(self, t):
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = None
        r = self.ev_(t)
        self.memo[t] = r
        return r

    def ev_(self, t):
        if t.op in ("i", "b"):
            return int(t.a[0])
        if t.op == "not":
            v = self.ev(t.a[0])
            return None if v is None else 1 - v
        if t.op in ("eq",):
            return self.equal(t.a[0], t.a[1])
        if t.op == "elem" and self.zero(t.a[0]):
            return 0
        if t.op == "trunc":
            v = self.ev(t.a[1])
            return None if v is None else v & ((1 << t.a[0]) - 1)
        if t.op == "bin":
            a, b = self.ev(t.a[1]), self.ev(t.a[2])
            if t.a[0] == "BitOr" and a is not None and b is not None:
                return a | b
            if t.a[0] in ("BitXor", "Add") and a is not None and b is not None:
                return (a ^ b) if t.a[0] == "BitXor" else a + b
            if t.a[0] in ("BitAnd", "Mul") and (a == 0 or b == 0):
                return 0
            if t.a[0] in ("Shr", "Shl") and a == 0:
                return 0
            return None
        if t.op == "xor":
            vs = [self.ev(x) for x in t.a if type(x) is Term]
            if all(v is not None for v in vs):
                r = 0
                for v in vs:
                    r ^= v
                return r
            return None
        if t.op in ("or", "add"):
            vs = [self.ev(x) for x in t.a if type(x) is Term]
            return 0 if vs and all(v == 0 for v in vs) else None
        if t.op == "lt":
            a, b = [self.ev(x) for x in t.a if type(x) is Term][:2]
            return None if a is None or b is None else int(a < b)
        return None

    def equal(self, a, b):
        x, y = self.ev(a), self.ev(b)
        if x is not None and y is not None:
            return int(x == y)
        za, zb = self.zero(a) or self.zeros(a), self.zero(b) or self.zeros(b)
        if za and zb:
            return 1
        for p, q in ((a, b), (b, a)):
            if self.zero(p):
                c = const_bytes(q)
                if c is not None and any(c) or q.op == "i" and q.a[0]:
                    return 0
        return None

    @staticmethod
    def zeros(t):
        c = const_bytes(t)
        return c is not None and not any(c) or t.op == "i" and t.a[0] == 0 or t.op == "app" and "ibig" in str(t.a[0]).lower() and len(t.a) > 1 and type(t.a[1]) is Term and t.a[1].op == "i" and t.a[1].a[0] == 0


def excluded(st, m):
    z = Z(m)
    und = False
    for t, v in st.facts.items():
        if not z.has(t):
            continue
        if t.op == "discr" and t.a[0].op == "app" and (t.a[0].a[0] in KDF or "From<" in t.a[0].a[0]):
            continue        # what happens to the product later, and conversions that succeed for zero too
        w = z.ev(t)
        if w is None:
            und = True
        elif type(v) is int and v != w or type(v) is frozenset and w in v:
            return True
    return None if und else False


def run(ctx):
    p = ctx.prog
    ets = entry_type(p)
    if not ets:
        ctx.incomplete.append("no key share entry type found")
        return
    fns = []
    for f in p.j["fns"]:
        if not f["local"] or not f.get("bl") or f["k"] != "item":
            continue
        for i in range(f["argc"]):
            ty = f["lt"][1 + i]
            while p.T[ty]["k"] == "ref":
                ty = p.T[ty]["e"]
            if ty in ets and reaches(p, f, lambda g: last(g["d"]) in MUL):
                fns.append((f, i, ty))
    groups = {i: {v["n"].upper(): v["d"] for v in p.T[i]["v"]} for i in enum_named(p, "NamedGroup")}
    for f, i, ty in fns:
        ctx.n("functions combining a key share with a key")
        one(ctx, p, f, i, ty, ets[ty], groups)
    ctx.floor("functions combining a key share with a key")
    ctx.floor("multiplications guarded by the group")
    ctx.floor("multiplications guarded by the length")
    ctx.floor("successes that exclude a zero product")


def one(ctx, p, f, i, ty, fields, groups):
    st = St()
    S = mk("sym", ("arg", "share"))
    args = [mk("vref", S) if k == i and p.T[f["lt"][1 + k]]["k"] == "ref" else S if k == i else None for k in range(f["argc"])]
    G, C = mk("fld", S, 0, fields[0]), mk("fld", S, 0, fields[1])
    prods = []

    def m_mul(eng, fr, b, st, g, vals, rty, atys):
        a = [eng.load_all(st, v) for v in vals]
        r = mk("app", "product", *a)
        hit = [x for x in a if has(x, C)]
        if hit:
            prods.append((st.copy(), r, a, fr))
        return [(st, r)]

    def has(t, x):
        return t is x or any(type(y) is Term and has(y, x) for y in t.a)

    models = {n: m_mul for n in MUL}
    for n in ("to_ibig_be", "to_ibig_le", "ibig_to_vec"):
        models[n] = opaque(n)
    models["ibig_to_32bytes"] = opaque("ibig_to_32bytes", 32)
    for n in KDF:
        models[n] = opaque(n)
    e = LaneEngine(p, models)
    args = [arg(e, f, k, st) if a is None else a for k, a in enumerate(args)]
    try:
        rs = call(e, f, args, st)
    except Exception as x:
        ctx.incomplete.append("%s: %s: %s" % (f["d"], type(x).__name__, str(x)[:200]))
        rs = []
    if not prods:
        ctx.incomplete.append("%s: no multiplication with the share's bytes was met" % f["d"])
        return
    gd = mk("discr", G)
    for s, r, a, fr in prods:
        g = e.lookup(s, gd)
        names = [n for gs in groups.values() for n, d in gs.items() if d == g]
        if type(g) is not int or not names:
            ctx.v("group:" + last(f["d"]), "%s multiplies the peer's key share without having checked its group" % loc(p, f))
            continue
        if names[0] not in SHARE:
            ctx.incomplete.append("%s: group %s is not known to this check" % (f["d"], names[0]))
            continue
        ctx.n("multiplications guarded by the group")
        n = e.lookup(s, length(C))
        if n != SHARE[names[0]][1]:
            ctx.v("length:" + last(f["d"]), "%s multiplies a %s key share whose length is %s" % (loc(p, f), names[0], "not checked" if type(n) is not int else "%d" % n))
            continue
        ctx.n("multiplications guarded by the length")
    ps = {r for s, r, a, fr in prods}
    for s, v in rs:
        k, w = unwrap(p, v)
        if k == "no":
            ctx.n("paths that fail")
            continue
        used = [r for r in ps if has(v, r)] or ([r for r in ps] if k != "?" else [])
        for r in used:
            x = excluded(s, r)
            if x:
                ctx.n("successes that exclude a zero product")
            elif x is None:
                ctx.n("successes undecided")
                ctx.incomplete.append("%s: a test of the shared secret could not be evaluated" % f["d"])
            else:
                ctx.v("zero:" + last(f["d"]), "%s succeeds although the shared secret may be all zero" % loc(p, f))
    ctx.sample("%s: %d multiplications, %d results" % (loc(p, f), len(prods), len(rs)))
