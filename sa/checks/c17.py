"""Path-sensitive abstract interpretation (value numbering) of the certificate parser, the CA check and the validity check, composed: DER certificates whose
contents are distinct unknowns, well formed (header lengths of all forms) and hostile (foreign elements at every place
outside the signed part, elements that overrun their parent), go through the parser and then through the CA check with
another such certificate as the CA. On every path that accepts, the hashed bytes must be exactly the first element of the
certificate, the key exactly the CA's, the signature exactly the certificate's, and every unknown in the fields of the
parsed certificate must come from the hashed bytes. The validity check must bound the time on both sides by the parsed
dates, the dates' second counts are compared with the calendar for every year and month with the rest symbolic, and the
handshake parser must return no certificate that failed to parse or whose validity was not established on the path."""
import datetime
from local import *
from lanes import *
from bigint import *
from checks.c19 import struct_of, bytes_like
import run as R

TECHNIQUE = "abstract interpretation (value numbering) of parser, CA check and validity check over DER terms; provenance of every field"
RULE = ("CA check succeeds => verify(key(CA), sig(cert), hash(first element of cert)) holds and fields(cert) derive from that element; "
        "validity: notBefore <= now <= notAfter; certificates of a handshake message: parsed and valid")
ASSUME = ["hash functions and ECDSA verification are uninterpreted (C30, C19)", "certificates of the shapes listed, with arbitrary contents"]


def S(*name):
    return lambda n: [mk("sym", ("D",) + name + (i,)) for i in range(n)]


def tlv(t, b, form=0):
    n = len(b)
    if form == 0:
        form = 1 if n < 128 else 2 if n < 256 else 3
    L = [I(n)] if form == 1 else [I(0x81), I(n)] if form == 2 else [I(0x82), I(n >> 8), I(n & 255)] if form == 3 else [I(0x83), I(0), I(n >> 8), I(n & 255)]
    return [I(t)] + L + b


def oid(h):
    return tlv(6, [I(x) for x in bytes.fromhex(h)])


ECDSA256, CN, ECPUB, P256 = "2a8648ce3d040302", "550403", "2a8648ce3d0201", "2a8648ce3d030107"


def name(w, k):
    return tlv(0x30, tlv(0x31, tlv(0x30, oid(CN) + tlv(0x0c, S(w, k)(1)))))


def times(w):
    return tlv(0x30, tlv(0x17, S(w, "nb")(13)) + tlv(0x17, S(w, "na")(13)))


def spki(w):
    return tlv(0x30, tlv(0x30, oid(ECPUB) + oid(P256)) + tlv(3, [I(0), I(4)] + S(w, "key")(64)))


def tbs(w, form=0, ext=0, version=False, over=0, sl=3, without=()):
    v = tlv(0xa0, tlv(2, [I(2)])) if version else []
    e = tlv(0xa3, S(w, "ext")(ext)) if ext else []
    parts = [("version", v), ("serial", tlv(2, S(w, "serial")(sl))), ("alg", tlv(0x30, oid(ECDSA256))), ("issuer", name(w, "iss")), ("dates", times(w)),
             ("subject", name(w, "sub")), ("key", spki(w)), ("extensions", e)]
    if "end date" in without:
        parts[4] = ("dates", tlv(0x30, tlv(0x17, S(w, "nb")(13))))
    if "key bits" in without:
        parts[6] = ("key", tlv(0x30, tlv(0x30, oid(ECPUB) + oid(P256))))
    if "curve" in without:
        parts[6] = ("key", tlv(0x30, tlv(0x30, oid(ECPUB)) + tlv(3, [I(0), I(4)] + S(w, "key")(64))))
    body = [x for n, b in parts if n not in without for x in b]
    if over:    # the public key belongs to the certificate's first element, but ends behind it
        body = body[:len(body) - over]
    return tlv(0x30, body, form)


def alg(extra=()):
    return tlv(0x30, oid(ECDSA256) + list(extra))


def sig(w, extra=(), rl=2, sl=2):
    return tlv(3, [I(0)] + tlv(0x30, tlv(2, S(w, "r")(rl)) + tlv(2, S(w, "s")(sl)) + list(extra)))


def certificate(w, T=None, **kw):
    T = T or tbs(w, **kw)
    return T, tlv(0x30, T + alg() + sig(w))


def shapes(tier):
    w = "c"
    out = []
    for form in (0, 2, 3, 4):
        out.append(("well formed, TBS header form %d" % form, True) + certificate(w, form=form))
    out.append(("well formed, version and extensions", True) + certificate(w, version=True, ext=5))
    out.append(("well formed, long extensions", True) + certificate(w, version=True, ext=200))
    out.append(("well formed, very long extensions", True) + certificate(w, version=True, ext=1500))
    T = tbs(w)
    for form in (3, 4):
        out.append(("well formed, outer header form %d" % form, True, T, tlv(0x30, T + alg() + sig(w), form)))
    for sl in (1, 20):
        out.append(("well formed, %d byte serial" % sl, True) + certificate(w, sl=sl))
    foreign = [("key", tlv(3, [I(0), I(4)] + S("x", "key")(64))), ("key info", spki("x")), ("dates", times("x")), ("date", tlv(0x17, S("x", "na")(13))),
               ("integer", tlv(2, S("x", "serial")(3))), ("name", name("x", "sub")), ("set", tlv(0x31, tlv(0x30, oid(CN) + tlv(0x0c, S("x", "cn")(1))))),
               ("string", tlv(0x0c, S("x", "str")(2))), ("version", tlv(0xa0, tlv(2, [I(0)]))), ("oid", oid(P256)), ("octets", tlv(4, S("x", "o")(3))),
               ("signature", sig("x")), ("certificate part", tbs("x"))]
    for n, f in foreign:
        for place in ("front", "behind", "in alg", "in sig", "end", "outside"):
            d = {"front": f + T + alg() + sig(w), "behind": T + f + alg() + sig(w), "in alg": T + alg(f) + sig(w), "in sig": T + alg() + sig(w, f),
                 "end": T + alg() + sig(w) + f, "outside": T + alg() + sig(w)}[place]
            first = f if place == "front" else T
            D = tlv(0x30, d)
            if place == "outside":
                D = D + f
            out.append(("%s %s" % (n, place), None, first, D))
    for miss, n, f in (("key bits", "key", foreign[0][1]), ("key", "key info", foreign[1][1]), ("dates", "dates", foreign[2][1]), ("end date", "date", foreign[3][1]),
                       ("serial", "integer", foreign[4][1]), ("curve", "oid", oid(P256))):
        T3 = tbs(w, without=(miss,))
        for place in ("front", "behind", "in alg", "in sig", "end"):
            d = {"front": f + T3 + alg() + sig(w), "behind": T3 + f + alg() + sig(w), "in alg": T3 + alg(f) + sig(w), "in sig": T3 + alg() + sig(w, f),
                 "end": T3 + alg() + sig(w) + f}[place]
            out.append(("no %s, but %s %s" % (miss, n, place), None, f if place == "front" else T3, tlv(0x30, d)))
    out.append(("no signature", None, T, tlv(0x30, T + alg())))
    out.append(("half a signature", None, T, tlv(0x30, T + alg() + tlv(3, [I(0)] + tlv(0x30, tlv(2, S(w, "r")(2)))))))
    out.append(("empty signature", None, T, tlv(0x30, T + alg() + tlv(3, [I(0)] + tlv(0x30, [])))))
    for over in (1, 40, 64):
        T2 = tbs(w, over=over)
        rest = S("x", "key")(over)
        out.append(("key overruns the signed part by %d" % over, None, T2, tlv(0x30, T2 + rest + alg() + sig(w))))
    out.append(("signature first", None, sig(w), tlv(0x30, sig(w) + T + alg())))
    out.append(("alone", None, T, T))
    return out


def from_utf8(eng, fr, b, st, f, vals, rty, atys):
    bad = st.copy()
    T = eng.p.T[rty]
    return [(st, mk("agg", rty, 0, eng.load_all(st, vals[0]))), (bad, mk("agg", rty, 1, mk("sym", ("utf8 error",))))]


class Eng(BigEngine):
    REC = 60
    LOOP_MAX = 2000
    types = None

    def handler(self, f):
        if not f["local"] and f["d"].endswith("String::from_utf8"):
            return from_utf8
        if f["local"] and f.get("bl") and f["id"] in self.types:
            return self.types[f["id"]]
        return super().handler(f)


def syms_of(t, seen=None, skip=None):
    out = set()
    seen = set()

    def go(t):
        if type(t) is not Term or t in seen:
            return
        seen.add(t)
        if t.op == "sym":
            if t.a[0][0] == "D":
                out.add(t)
            return
        if skip is not None and t.op == "agg" and t.a[0] == skip:
            return
        for x in t.a:
            go(x)
    go(t)
    return out


def typed(p):
    """structures and functions by their types"""
    r = {"struct": {}}
    for i, t in enumerate(p.T):
        if t["k"] == "adt" and t.get("local") and t["a"] == "struct":
            ns = {n: (j, ty) for j, (n, ty) in enumerate(t["v"][0]["f"])}
            if set(ns) == {"r", "s"}:
                r["struct"]["sig"] = i
            elif set(ns) == {"point", "curve"}:
                r["struct"]["pub"] = i
                r["point"] = ns["point"]
            elif {"year", "month", "day", "hour", "minute", "second"} <= set(ns):
                r["struct"]["time"] = i
                r["time"] = {n: j for n, (j, ty) in ns.items()}
            elif last(t["d"]) == "Certificate":
                r["struct"]["cert"] = i
            elif last(t["d"]) == "X509":
                r["struct"]["x509"] = i
    ts = r["struct"].get("time")
    for i, t in enumerate(p.T):
        if t["k"] == "adt" and t.get("local") and t["a"] == "struct" and ts is not None:
            fs = t["v"][0]["f"]
            if len(fs) == 2 and all(mentions_type(p, ty, ts) for n, ty in fs):
                r["struct"]["validity"] = i
                r["validity"] = {n: j for j, (n, ty) in enumerate(fs)}
    return r


def mentions_type(p, ty, want):
    T = p.T[ty]
    return ty == want or T["k"] in ("adt", "ref") and any(type(x) is int and mentions_type(p, x, want) for x in (T.get("args", []) if T["k"] == "adt" else [T["e"]]))


def fns(p, pred):
    return [f for f in p.j["fns"] if f["local"] and f.get("bl") and f["k"] == "item" and f.get("lt") and "::tests::" not in f["d"] and pred(f)]


def params(p, f):
    return [struct_of(p, t) for t in f["lt"][1:1 + f["argc"]]]


def result_of(p, ty):
    T = p.T[ty]
    return T["args"][0] if T["k"] == "adt" and last(T["d"]) in ("Result", "Option") else ty


def run(ctx):
    p = ctx.prog
    ty = typed(p)
    s = ty["struct"]
    if not {"sig", "pub", "time", "cert", "x509", "validity"} <= set(s):
        ctx.incomplete.append("structures not found: %s" % sorted({"sig", "pub", "time", "cert", "x509", "validity"} - set(s)))
        return
    bl = lambda f, i: bytes_like(p, f["lt"][1 + i])
    F = {
        "verify": fns(p, lambda f: p.T[f["lt"][0]]["k"] == "bool" and {s["sig"], s["pub"]} <= set(params(p, f))),
        "new": fns(p, lambda f: f["argc"] == 1 and bl(f, 0) and result_of(p, f["lt"][0]) == s["cert"]),
        "signed": fns(p, lambda f: f["argc"] == 2 and params(p, f) == [s["cert"], s["cert"]]),
        "key": fns(p, lambda f: f["argc"] == 1 and params(p, f) == [s["x509"]] and result_of(p, f["lt"][0]) == s["pub"]),
        "valid": fns(p, lambda f: f["argc"] == 1 and params(p, f) == [s["validity"]] and p.T[f["lt"][0]]["k"] == "bool"),
        "time": fns(p, lambda f: f["argc"] == 1 and result_of(p, f["lt"][0]) == s["time"] and result_of(p, f["lt"][0]) != f["lt"][0]),
        "stamp": fns(p, lambda f: f["argc"] == 1 and params(p, f) == [s["time"]] and p.T[f["lt"][0]]["k"] in ("uint", "int")),
        "hello": fns(p, lambda f: f["argc"] == 1 and bl(f, 0) and mentions_type(p, f["lt"][0], s["cert"]) and result_of(p, f["lt"][0]) != s["cert"]),
    }
    for k, v in F.items():
        if not v:
            ctx.incomplete.append("no function found for: " + k)
    base = {}
    for f in F["verify"]:
        base[f["id"]] = opaque("verify", norm=True)
    for f in F["time"]:
        base[f["id"]] = opaque("time", norm=True)
    for f in F["stamp"]:
        base[f["id"]] = opaque("stamp")
    if F["new"] and F["signed"] and F["verify"]:
        for sh in shapes(ctx.tier):
            shape(ctx, p, ty, F, base, sh)
    for f in F["valid"]:
        validity(ctx, p, ty, f, base)
    for f in F["stamp"]:
        stamp(ctx, p, ty, f)
    for f in F["time"]:
        digits(ctx, p, ty, f)
    for f in F["hello"]:
        hello(ctx, p, ty, F, f)
    for w, k in (("well formed certificates accepted", 8), ("hostile certificates analysed", 60), ("validity paths bounded on both sides", 1),
                 ("months compared with the calendar", 900), ("handshake certificates valid on their path", 1), ("dates read from their digits", 1)):
        ctx.floor(w, k)


def engine_for(p, base, **more):
    e = Eng(p, {"to_ibig_be": opaque("int_be", norm=True), "to_ibig_le": opaque("int_le", norm=True),
                "::sha256": opaque("sha256", 32, norm=True), "::sha384": opaque("sha384", 48, norm=True), "Curve::secp256r1": opaque("P-256")})
    e.types = base
    e.max_blocks = 2000000
    return e


def parse(e, p, F, D):
    st = St()
    f = next((f for f in F["new"] if last(f["d"]) == "from_raw_x509"), F["new"][0])
    d = seq_of(D)
    return f, call(e, f, [mk("vref", d) if p.T[f["lt"][1]]["k"] == "ref" else d], st)


CA = {}


def shape(ctx, p, ty, F, base, sh):
    what, good, first, D = sh
    e = engine_for(p, base)
    try:
        if "v" not in CA:
            T, cd = certificate("ca")
            f, rs = parse(e, p, F, cd)
            oks = [(st, unwrap(p, v)) for st, v in rs]
            oks = [(st, w) for st, (k, w) in oks if k == "ok"]
            if not oks:
                ctx.incomplete.append("a well formed certificate does not parse")
                CA["v"] = None
                return
            CA["v"] = oks[0]
        if CA["v"] is None:
            return
        st0, ca = CA["v"]
        e = engine_for(p, base)
        f, rs = parse(e, p, F, D)
    except Exception as x:
        ctx.incomplete.append("%s: %s: %s" % (what, type(x).__name__, str(x)[:120]))
        return
    ctx.n("well formed certificates analysed" if good else "hostile certificates analysed")
    ctx.n("parser paths", len(rs))
    chk = F["signed"][0]
    fs = syms_of(seq_of(first))
    accepted = 0
    for st, v in rs:
        k, w = unwrap(p, v)
        if k != "ok":
            continue
        ctx.n("parsed certificates")
        c = e.load_all(st, w)
        # fields must come from the first element
        x509 = [a for a in find_agg(c, ty["struct"]["x509"])]
        try:
            args = [mk("vref", ca), mk("vref", c)]
            # the state of the CA's parse holds what its fields depend on
            for t, fv in st0.facts.items():
                st.facts.setdefault(t, fv)
            out = call(e, chk, args, st)
        except Exception as x:
            ctx.incomplete.append("%s, CA check: %s: %s" % (what, type(x).__name__, str(x)[:120]))
            continue
        for s2, r in out:
            k2, _ = unwrap(p, r)
            if k2 == "no" or k2 == "val" and r.op in ("b", "i") and not r.a[0]:
                ctx.n("rejecting paths")
                continue
            vf = [(t, fv) for t, fv in s2.facts.items() if t.op == "app" and t.a[0] == "verify"]
            if k2 == "?":
                ctx.incomplete.append("%s: the result of the CA check is not decided" % what)
                continue
            accepted += 1
            ctx.n("accepting paths")
            true = [t for t, fv in vf if fv == 1 or type(fv) is frozenset and 0 in fv]
            if not true:
                ctx.v("unverified:" + last(chk["d"]), "%s accepts a certificate without a successful signature verification (%s)" % (loc(p, chk), what))
                continue
            problems = []
            for t in true:
                q = judge(p, ty, t, first, good)
                if not q:
                    problems = []
                    break
                problems.append(q)
            if problems:
                kind, msg = problems[0]
                if kind == "?":
                    ctx.incomplete.append("%s: %s" % (what, msg))
                else:
                    ctx.v("%s:%s" % (kind, last(chk["d"])), "%s: certificate \"%s\": %s" % (loc(p, chk), what, msg))
                continue
            ctx.n("accepting paths with exactly the signed part")
            for a in x509:
                out_ = syms_of(a, skip=ty["struct"]["sig"]) - fs
                if out_:
                    ctx.v("foreign:" + what.split()[-1], "%s: certificate \"%s\" counts as signed although its fields contain bytes that are not signed: %s" % (
                        loc(p, f), what, ", ".join(sorted({"/".join(map(str, t.a[0][1:-1])) for t in out_}))))
                else:
                    ctx.n("certificates whose fields are all signed")
            if good and F["key"]:
                key(ctx, p, ty, F, e, s2, what, c, x509)
    if good:
        if accepted:
            ctx.n("well formed certificates accepted")
        else:
            ctx.n("well formed certificates not accepted")
    elif not accepted:
        ctx.n("hostile certificates rejected")


def find_agg(t, ty, seen=None):
    seen = seen if seen is not None else set()
    if type(t) is not Term or t in seen:
        return
    seen.add(t)
    if t.op == "agg" and t.a[0] == ty:
        yield t
    for x in t.a:
        yield from find_agg(x, ty, seen)


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def ints(t):
    """the bytes of int_be(bytes), or None"""
    t = eta(t)
    if t.op == "app" and t.a[0] == "int_be":
        return known_elems(t.a[1])
    return None


def judge(p, ty, t, first, good):
    """None if the verification covers what it must, or (kind, message)"""
    pk = sg = None
    rest = []
    for x in t.a[1:]:
        if x.op == "agg" and x.a[0] == ty["struct"]["pub"]:
            pk = x
        elif x.op == "agg" and x.a[0] == ty["struct"]["sig"]:
            sg = x
        else:
            rest.append(x)
    if pk is None or sg is None or len(rest) != 1:
        return "?", "the verification's arguments could not be followed"
    h = rest[0]
    if h.op == "seq":
        hs = known_elems(h)
        h = hs[0].a[0] if hs and hs[0].op == "elem" and all(x.op == "elem" and x.a[0] is hs[0].a[0] for x in hs) and len(hs) == 32 else h
    if h.op != "app" or h.a[0] not in ("sha256", "sha384"):
        return "hash", "the verified value is not a hash of the signed part: %s" % show(h, 2)[:100]
    hb = known_elems(h.a[1])
    if hb is None:
        return "?", "the hashed bytes are not explicit: %s" % show(h.a[1], 2)[:100]
    if not same(hb, first):
        return "range", "%d bytes are hashed, which are not exactly the certificate's first element (%d bytes)" % (len(hb), len(first))
    ks = {x.a[0][1:3] for x in syms_of(pk)}
    if ks != {("ca", "key")}:
        return "key", "the verifying key is built from %s" % sorted(ks)
    pt = pk.a[2 + ty["point"][0]]
    xy = [ints(x) for x in pt.a[2:]] if pt.op == "agg" else []
    kb = S("ca", "key")(64)
    if xy and None not in xy and not (same(xy[0], kb[:32]) and same(xy[1], kb[32:])):
        return "key", "the verifying key is not the CA's public key as encoded"
    w = [ints(x) for x in sg.a[2:]]
    flds = [n for n, _ in p.T[sg.a[0]]["v"][0]["f"]]
    for n, bs in zip(flds, w):
        if bs is None:
            return "?", "the signature's components could not be followed"
        if good and not same(bs, S("c", n)(len(bs))):
            return "signature", "the component %s that is verified is not the certificate's own" % n
    return None


def key(ctx, p, ty, F, e, st, what, c, x509):
    for f in F["key"][:1]:
        for a in x509[:1]:
            try:
                rs = call(e, f, [mk("vref", a)], st.copy())
            except Exception as x:
                ctx.incomplete.append("public key of %s: %s" % (what, x))
                return
            for s, v in rs:
                k, w = unwrap(p, v)
                if k != "ok":
                    continue
                w = e.load_all(s, w)
                pt = w.a[2 + ty["point"][0]] if w.op == "agg" else None
                xy = [ints(x) for x in pt.a[2:]] if pt is not None and pt.op == "agg" else []
                kb = S("c", "key")(64)
                if not xy or None in xy:
                    ctx.n("public keys undecided")
                elif same(xy[0], kb[:32]) and same(xy[1], kb[32:]):
                    ctx.n("public keys exact")
                else:
                    ctx.v("pubkey:" + last(f["d"]), "%s: the public key is not the one encoded in the certificate (%s)" % (loc(p, f), what))


# ---- validity

def has_now(t):
    return type(t) is Term and (t.op == "sym" and "now" in str(t.a[0]).lower() or t.op == "app" and "SystemTime" in str(t.a[0]) or any(has_now(x) for x in t.a))


def shifted(t):
    """(x, k) with t = x + k"""
    while t.op == "trunc":
        t = t.a[1]
    k, ps = lin_parts(t)
    if k and len(ps) == 1 and list(ps.values() if type(ps) is dict else [c for x, c in ps])[0] == 1:
        return (list(ps)[0] if type(ps) is dict else ps[0][0]), k
    return t, 0


def pure_now(t):
    """the current time as the clock gives it, in seconds"""
    if t.op == "app":
        n = str(t.a[0]).split("::")[-1]
        return n == "now" or n in ("as_secs", "duration_since", "elapsed") and all(type(x) is not Term or pure_now(x) or not has_now(x) for x in t.a[1:])
    return t.op in ("sym", "fld", "vref", "i", "agg", "trunc") and all(type(x) is not Term or pure_now(x) or not has_now(x) for x in t.a)


def validity(ctx, p, ty, f, base):
    names = sorted(ty["validity"])
    nb = next((n for n in names if "before" in n or "from" in n or "start" in n), None)
    na = next((n for n in names if "after" in n or "until" in n or "end" in n), None)
    if nb is None or na is None:
        ctx.incomplete.append("the dates of the validity are not recognised")
        return
    e = engine_for(p, base)
    V = mk("sym", ("arg", "V"))
    try:
        rs = call(e, f, [mk("vref", V)], St())
    except Exception as x:
        ctx.incomplete.append("%s: %s: %s" % (f["d"], type(x).__name__, str(x)[:120]))
        return
    fb, fa = mk("fld", V, 0, ty["validity"][nb]), mk("fld", V, 0, ty["validity"][na])

    def within(t, x):
        return type(t) is Term and (t is x or any(within(y, x) for y in t.a))

    def exact(t, x):
        """a second count of the date x and of nothing else"""
        return t.op == "app" and t.a[0] == "stamp" and within(t, x) and not within(t, fa if x is fb else fb)

    for st, v in rs:
        if v.op not in ("b", "i"):
            # the last comparison is returned as a value: both outcomes
            st = st.copy()
            if not assume_true(e, st, v):
                ctx.incomplete.append("%s: result %s" % (f["d"], show(v, 2)[:100]))
                continue
        elif not v.a[0]:
            ctx.n("validity paths that reject")
            continue
        lo = hi = other = vague = False
        for t, fv in st.facts.items():
            if t.op == "lt" and type(fv) is int and (within(t, fb) or within(t, fa)):
                (a, ka), (b, kb) = shifted(t.a[0]), shifted(t.a[1])
                k = ka - kb         # the fact compares a + k with b
                if has_now(a) and not has_now(b):
                    vague = vague or not pure_now(a)
                    if fv == 0 and exact(b, fb) and k <= 0:
                        lo = True
                    elif fv == 1 and exact(b, fa) and k >= -1:
                        hi = True
                    else:
                        other = True
                elif has_now(b) and not has_now(a):
                    vague = vague or not pure_now(b)
                    if fv == 1 and exact(a, fb) and k >= -1:
                        lo = True
                    elif fv == 0 and exact(a, fa) and k <= 0:
                        hi = True
                    else:
                        other = True
                else:
                    other = True
        if lo and hi and not vague:
            ctx.n("validity paths bounded on both sides")
        elif vague or other and not all(known_cmp(t) for t in st.facts if t.op == "lt"):
            ctx.incomplete.append("%s: a comparison of dates could not be followed" % f["d"])
        else:
            ctx.v("validity:%s%s" % ("" if lo else "before", "" if hi else "after"), "%s holds on a path that does not establish %s" % (
                loc(p, f), " and ".join(([] if lo else ["notBefore <= now"]) + ([] if hi else ["now <= notAfter"]))))


def known_cmp(t):
    def ok(x):
        if type(x) is not Term:
            return True
        if x.op == "app":
            return x.a[0] in ("stamp",) or "time" in str(x.a[0]) or "Duration" in str(x.a[0]) or "static" in str(x.a[0]) or "const" in str(x.a[0])
        if x.op in ("sym", "i", "b", "fld", "lin", "add", "vref", "agg", "discr", "bin"):
            return all(ok(y) for y in x.a)
        return False
    return all(ok(x) for x in t.a)


def assume_true(e, st, v):
    if v.op == "not" and v.a[0].op == "lt":
        st.facts[v.a[0]] = 0
        return True
    if v.op == "lt":
        st.facts[v] = 1
        return True
    return False


def stamp(ctx, p, ty, f):
    """seconds of a date: for every year and month, with day, hour, minute and second unknown"""
    ts = ty["struct"]["time"]
    bad = []
    for year in range(1970, 2050):
        for month in range(1, 13):
            e = Eng(p, {})
            e.types = {}
            e.max_blocks = 200000
            order = sorted(ty["time"], key=lambda n: ty["time"][n])
            vals = [{"year": I(year), "month": I(month)}.get(n) or mk("sym", ("date", n)) for n in order]
            t = mk("agg", ts, 0, *vals)
            st = St()
            st.facts[mk("eq", mk("sym", ("date", "day")), I(0))] = 0
            try:
                rs = call(e, f, [mk("vref", t) if p.T[f["lt"][1]]["k"] == "ref" else t], st)
            except Exception as x:
                ctx.incomplete.append("%s(%d-%d): %s: %s" % (f["d"], year, month, type(x).__name__, str(x)[:100]))
                return
            base = int((datetime.datetime(year, month, 1) - datetime.datetime(1970, 1, 1)).total_seconds())
            want = I(base - 86400)
            for n, k in (("day", 86400), ("hour", 3600), ("minute", 60), ("second", 1)):
                want = add(want, mulc(mk("sym", ("date", n)), k))
            for s, v in rs:
                if v is want:
                    ctx.n("months compared with the calendar")
                elif any(x.op not in ("sym", "i", "lin") for x in terms_in(v)):
                    ctx.incomplete.append("%s(%d-%d) could not be followed: %s" % (f["d"], year, month, show(v, 3)[:100]))
                    return
                else:
                    bad.append((year, month, show(sub(v, want), 3)))
    if bad:
        ctx.v("calendar:" + last(f["d"]), "%s: wrong second count in %d months, first %d-%02d: off by %s" % ((loc(p, f), len(bad)) + bad[0]))


def terms_in(t):
    yield t
    for x in t.a:
        if type(x) is Term:
            yield from terms_in(x)


def digits(ctx, p, ty, f):
    """each part of a date is read from its own two digits"""
    D = S("date")(13)
    e = Eng(p, {"str_to_u16": opaque("two", norm=True)})
    e.types = {}
    e.max_blocks = 300000
    d = seq_of(D)
    try:
        rs = call(e, f, [mk("vref", d) if p.T[f["lt"][1]]["k"] == "ref" else d], St())
    except Exception as x:
        ctx.incomplete.append("%s: %s: %s" % (f["d"], type(x).__name__, str(x)[:100]))
        return
    order = ["year", "month", "day", "hour", "minute", "second"]
    for st, v in rs:
        k, w = unwrap(p, v)
        if k != "ok":
            continue
        w = e.load_all(st, w)
        if w.op != "agg":
            ctx.incomplete.append("%s: result %s" % (f["d"], show(w, 2)[:80]))
            continue
        for i, n in enumerate(order):
            x = w.a[2 + ty["time"][n]]
            two = [t for t in terms_in(x) if t.op == "app" and t.a[0] == "two"]
            if len(two) != 1:
                ctx.n("date parts undecided")
                continue
            bs = known_elems(two[0].a[1])
            if bs is None or len(bs) < 2:
                ctx.n("date parts undecided")
                continue
            if not same(bs[:2], D[2 * i:2 * i + 2]):
                ctx.v("digits:" + n, "%s reads the %s from digits %s" % (loc(p, f), n, [show(b, 1) for b in bs[:2]]))
                continue
            want = None
            if n == "year":
                off = sub(x, two[0])
                lt50 = [(fv, t.a[1].a[0]) for t, fv in st.facts.items() if t.op == "lt" and t.a[0] is two[0] and t.a[1].op == "i"]
                lt50 += [(1 - fv, t.a[0].a[0] + 1) for t, fv in st.facts.items() if t.op == "lt" and t.a[1] is two[0] and t.a[0].op == "i" and type(fv) is int]
                lt50 = [x for x in lt50 if type(x[0]) is int]
                off = off.a[0] if off.op == "i" else None
                if off is None or len(lt50) != 1:
                    ctx.n("date parts undecided")
                    continue
                below, pivot = lt50[0]
                if off != (2000 if below else 1900) or pivot != 50:
                    ctx.v("century:year", "%s: year %s %d is taken as %d + year" % (loc(p, f), "<" if below else ">=", pivot, off))
                    continue
            elif x is not two[0]:
                ctx.n("date parts undecided")
                continue
            ctx.n("dates read from their digits")


# ---- handshake

def hello(ctx, p, ty, F, f):
    def raw(eng, fr, b, st, g, vals, rty, atys):
        d = explicit(eng.load_all(st, vals[0]))
        c = mk("app", "cert", d)
        bad = st.copy()
        st.mset("c%d" % c.id, c)
        return [(st, mk("agg", rty, 0, c)), (bad, mk("agg", rty, 1, mk("sym", ("parse error",))))]
    types = {}
    for g in F["new"]:
        types[g["id"]] = raw
    for g in F["valid"]:
        types[g["id"]] = opaque("valid")
    for ctxlen, xl in ((0, 0), (2, 0), (0, 3)):
        for lens in ([], [4], [4, 5], [4, 5, 6]):
            body = []
            for i, n in enumerate(lens):
                body += [I(0), I(0), I(n)] + S("cert", i)(n) + [I(0), I(xl)] + S("ext", i)(xl)
            buf = seq_of([I(ctxlen)] + S("ctx")(ctxlen) + [I(0), I(0), I(len(body))] + body)
            e = engine_for(p, types)
            try:
                rs = call(e, f, [mk("vref", buf) if p.T[f["lt"][1]]["k"] == "ref" else buf], St())
            except Exception as x:
                ctx.incomplete.append("%s: %s: %s" % (f["d"], type(x).__name__, str(x)[:120]))
                return
            ctx.n("handshake messages analysed")
            for st, v in rs:
                k, w = unwrap(p, v)
                if k == "no":
                    ctx.n("handshake messages refused")
                    continue
                w = e.load_all(st, w) if w is not None else v
                cs = [t for t in terms_in(w) if t.op == "app" and t.a[0] == "cert"]
                if k == "?" or not cs and lens:
                    ctx.n("handshake messages undecided")
                    continue
                if not lens and not cs:
                    continue
                for c in dict.fromkeys(cs):
                    val = [fv for t, fv in st.facts.items() if t.op == "app" and t.a[0] == "valid" and any(x is c for x in terms_in(t))]
                    if any(x == 1 or type(x) is frozenset and 0 in x for x in val):
                        ctx.n("handshake certificates valid on their path")
                    else:
                        ctx.v("invalid:" + last(f["d"]), "%s returns a certificate whose validity is not established on the path" % loc(p, f))
                    i = [j for j, n in enumerate(lens) if same(known_elems(c.a[1]) or [], S("cert", j)(n))]
                    if not i:
                        ctx.v("bytes:" + last(f["d"]), "%s parses a certificate from other bytes than an entry of the list: %s" % (loc(p, f), show(c, 2)[:100]))
