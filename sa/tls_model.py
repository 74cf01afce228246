"""Event anchors of the TLS implementation: sockets, random source, hashes, MACs, signatures, AEADs, output."""
from terms import *
from engine import Engine, St, Bug, std_opaque, stdkey
import std_model
from std_model import M, one, unit, mref, cont, some, none, ok, err, deref_ty, fork_bool


def last(d):
    return stdkey(d)


class TlsEngine(Engine):
    """adds the project's primitives as uninterpreted functions and raises events at them"""

    def __init__(self, prog, monitors=(), logs=False):
        super().__init__(prog, monitors, std_model.M)
        self.logs = logs
        self.hash_len = {}
        for i, t in enumerate(prog.T):
            if t["k"] == "adt" and t["a"] == "enum" and t["d"].split("::")[-1] in ("TlsError", "ParseError"):
                COARSE.add(i)

    # -------------------------------------------------------------- which functions are primitives
    OPAQUE_MODS = ("::crypto::aes::", "::crypto::chacha20::", "::crypto::ellipticcurve::", "::utils::x509::", "::utils::der::",
                   "::utils::pem::", "::utils::base64::")

    def trait_handler(self, f):
        p = self.p
        d = f["d"]
        h = EXT.get(d)
        if h:
            return h
        if not f["local"]:
            if d == "std::io::Write::write_all" or d.endswith("Write>::write_all"):
                return io_write_all
            if d.startswith("std::io::_print") or d.startswith("std::io::_eprint"):
                return do_print
            return None
        im = p.impl_of.get(f["id"])
        tr, meth, sty = None, None, None
        if f["k"] == "virtual":
            tr, meth = d.split("::")[-2:]
        elif im:
            tr, meth, sty = im[0].split("::")[-1], im[1], im[2]
        if tr == "TranscriptHash" and meth in TH:
            return TH[meth]
        if tr == "Cipher" and meth in ("encrypt", "decrypt"):
            return CIPH[meth]
        if tr == "RngCore" and meth in ("bytes", "between"):
            return RNG[meth]
        h = LOCAL.get(last(d))
        if h:
            return h
        if any(m in d for m in self.OPAQUE_MODS) and im is None and f["k"] == "item":
            if "::crypto::" in d and f.get("bl") and "::ellipticcurve::" not in d and all(b["t"][0] != "call" for b in f["bl"]) \
                    and len(f["bl"]) <= 2:
                return None
            return prim
        return None

    def is_event_fn(self, f):
        d = f["d"]
        if d in EXT or last(d) in EVENT_LOCAL:
            return True
        if f["k"] == "virtual":
            return d.split("::")[-2] in ("TranscriptHash", "Cipher", "RngCore") and d.split("::")[-1] in (
                "update", "encrypt", "decrypt", "bytes", "between")
        im = self.p.impl_of.get(f["id"])
        if im and f["local"]:
            return (im[0].split("::")[-1], im[1]) in (("RngCore", "bytes"), ("RngCore", "between"), ("Cipher", "encrypt"),
                                                      ("Cipher", "decrypt"), ("TranscriptHash", "update"))
        if not f["local"] and (d in ("std::io::Write::write_all", "std::io::_print", "std::io::_eprint") or
                               d.endswith(("SystemTime::now", "Instant::now"))):
            return True
        return False

    def hash_of(self, sty):
        """output length of a transcript hash implementation (from its own get_type)"""
        r = self.hash_len.get(sty)
        if r is None:
            r = 0
            for (tm, s), fid in self.p.impls.items():
                if s == sty and tm.endswith("TranscriptHash::get_type"):
                    f = self.p.F[fid]
                    e = Engine(self.p, (), std_model.M)
                    res = e.run_fn(f, [mk("vref", UNINIT)], St(), e.ctx(0, 0, fid), 0, False)
                    v = res[0][1]
                    if v.op == "agg":
                        r = self.p.T[v.a[0]]["v"][v.a[1]]["d"]
            self.hash_len[sty] = r
        return r

    def dyncall(self, fr, b, st, fv, vals, rty, atys):
        a = [self.deep(st, v) for v in vals]
        self.event(st, fr, "dyncall", fv=fv, args=a)
        return [(st, mk("app", "dyncall", fv, *a))]


def prim(eng, fr, b, st, f, vals, rty, atys):
    return [(st, eng.opaque(fr, st, last(f["d"]), vals, atys))]


PH = {(): 0}
PHN = [()]
NEXT = {0: (1,), 1: (2,), 2: (8,), 8: (13, 11, 20), 13: (11,), 11: (15, 20), 15: (20,), 20: (11, 20)}


def bump(eng, st, fr, added):
    """the phase identifies how far the protocol run has come: the types of the messages added to the running
    transcript, as long as they follow the order of a handshake; anything else leads to one absorbing phase"""
    t = eng.lookup(st, elem(added, I(0)))
    t = t if type(t) is int else -1
    cur = PHN[st.tag("phase")]
    if cur and cur[-1] == "*":
        return
    last_ = cur[-1] if cur else 0
    if t == -1:
        ok_ = cur.count(-1) < 3
    else:
        ok_ = cur.count(t) < 2 and (last_ == -1 or t in NEXT.get(last_, ()))
    v = cur + (t if ok_ else "*",)
    if v not in PH:
        PH[v] = len(PHN)
        PHN.append(v)
    st.settag("phase", PH[v])


# ---------------------------------------------------------------------- transcript hash
def digest(h, c):
    return set_len(mk("app", "digest", I(h), c), I(h))


def th_new(eng, fr, b, st, f, vals, rty, atys):
    sty = eng.p.impl_of[f["id"]][2]
    return one(st, mk("ths", sty, EMPTY))


def th_self(eng, st, v):
    r = mref(eng, st, v)
    h = eng.load(st, r)
    while h.op in ("vref", "ref"):
        r = h
        h = eng.load(st, h)
    return r, h


def miss(eng, fr, what, got):
    """an anchored call whose receiver could not be resolved: the analysis is blind there"""
    w = eng.where(fr)
    k = "%s at %s:%s (%s)" % (what, w["fn"], w["line"], got)
    eng.stats.setdefault("miss", {})
    eng.stats["miss"][k] = eng.stats["miss"].get(k, 0) + 1
    return None


def th_update(eng, fr, b, st, f, vals, rty, atys):
    r, h = th_self(eng, st, vals[0])
    c = cont(eng, st, vals[1])
    if h.op != "ths":
        return miss(eng, fr, "transcript", h.op)
    dyn = f["k"] == "virtual" or eng.p.T[deref_ty(eng, atys[0])]["k"] == "dyn"
    if dyn:
        bump(eng, st, fr, c)
    n = mk("ths", h.a[0], concat(h.a[1], c))
    eng.store(st, r, n)
    eng.event(st, fr, "transcript", before=h.a[1], added=c, dyn=dyn, ref=r)
    return one(st, unit(eng))


def th_finalize(eng, fr, b, st, f, vals, rty, atys):
    r, h = th_self(eng, st, vals[0])
    if h.op != "ths":
        return miss(eng, fr, "transcript", h.op)
    return one(st, digest(eng.hash_of(h.a[0]), h.a[1]))


def th_clone(eng, fr, b, st, f, vals, rty, atys):
    r, h = th_self(eng, st, vals[0])
    return one(st, h) if h.op == "ths" else None


def th_type(eng, fr, b, st, f, vals, rty, atys):
    if f["k"] != "virtual":
        return None
    r, h = th_self(eng, st, vals[0])
    if h.op != "ths":
        return miss(eng, fr, "transcript", h.op)
    fid = eng.p.impls.get((f["d"], h.a[0]))
    if fid is None:
        return None
    return eng.enter(fr, b, st, eng.p.F[fid], [mk("vref", UNINIT)], rty, atys)


TH = {"new": th_new, "update": th_update, "finalize": th_finalize, "clone": th_clone, "get_type": th_type}


def hash_fn(n):
    def h(eng, fr, b, st, f, vals, rty, atys):
        return one(st, digest(n, cont(eng, st, vals[0])))
    return h


# ---------------------------------------------------------------------- HMAC / HKDF
def hmac_new(eng, fr, b, st, f, vals, rty, atys):
    return one(st, mk("hm", rty, vals[0], mk("vref", cont(eng, st, vals[1])), EMPTY))


def hmac_update(eng, fr, b, st, f, vals, rty, atys):
    r, h = th_self(eng, st, vals[0])
    if h.op != "hm":
        return miss(eng, fr, "hmac", h.op)
    eng.store(st, r, mk("hm", h.a[0], h.a[1], h.a[2], concat(h.a[3], cont(eng, st, vals[1]))))
    return one(st, unit(eng))


def hlen(eng, h):
    d = eng.discr(h)
    return d


def hmac(eng, h, key, msg):
    return set_len(mk("app", "hmac", hlen(eng, h), key, msg), hlen(eng, h))


def hmac_result(eng, fr, b, st, f, vals, rty, atys):
    r, h = th_self(eng, st, vals[0])
    if h.op != "hm":
        return miss(eng, fr, "hmac", h.op)
    return one(st, hmac(eng, h.a[1], h.a[2].a[0], h.a[3]))


def hkdf_expand(eng, fr, b, st, f, vals, rty, atys):
    k = cont(eng, st, vals[0])
    T = eng.p.T[deref_ty(eng, atys[0])]
    names = [x[0] for x in T["v"][0]["f"]]
    try:
        ih, ip = names.index("hash"), names.index("pseudo_random_key")
    except ValueError:
        return None
    h = eng.discr(eng.field(k, 0, ih))
    prk = eng.field(k, 0, ip)
    info = cont(eng, st, vals[1])
    n = vals[2]
    v = set_len(mk("app", "expand", h, prk, info, n), n)
    out = []
    for s, big in fork_bool(eng, fr, st, eng.lt(st, mulc(h, 255), n, False)):
        out.append((s, none(rty) if big else some(eng, rty, v)))
    return out


# ---------------------------------------------------------------------- random numbers
def rng_src(eng, fr, st, v):
    r, g = th_self(eng, st, v)
    if g.op != "agg":
        miss(eng, fr, "rng", show(g, 3))
    if g.op == "agg":
        return eng.p.T[g.a[0]].get("d", "?").split("::")[-1]
    return "?"


def rng_bytes(eng, fr, b, st, f, vals, rty, atys):
    if f["k"] != "virtual" and fr.f["id"] == f["id"]:
        return None
    src = rng_src(eng, fr, st, vals[0])
    t = eng.fresh(st, fr, "rng:" + src + ":bytes")
    set_len(t, vals[1])
    eng.event(st, fr, "random", val=t, src=src, size=vals[1], what="bytes")
    return one(st, t)


def rng_between(eng, fr, b, st, f, vals, rty, atys):
    src = rng_src(eng, fr, st, vals[0])
    t = eng.fresh(st, fr, "rng:" + src + ":between")
    eng.event(st, fr, "random", val=t, src=src, size=vals[2], what="between")
    return one(st, t)


RNG = {"bytes": rng_bytes, "between": rng_between}


# ---------------------------------------------------------------------- AEAD
def aead(name):
    def h(eng, fr, b, st, f, vals, rty, atys):
        recv = eng.load_all(st, vals[0])
        a = [cont(eng, st, v) for v in vals[1:]]
        if fr.depth == 0 and fr.f["id"] == f["id"]:
            return None
        R = eng.p.T[rty]
        out = []
        good, bad = st.copy(), st.copy()
        if name == "encrypt":
            eng.event(st, fr, "encrypt", recv=recv, key=a[0], nonce=a[1], plain=a[2], aad=a[3])
            good, bad = st.copy(), st.copy()
            ct = set_len(mk("app", "ct", *a), length(a[2]))
            tag = set_len(mk("app", "tag", *a), I(16))
            out.append((good, ok(rty, mk("agg", R["args"][0], 0, ct, tag))))
        else:
            eng.event(st, fr, "decrypt", recv=recv, key=a[0], nonce=a[1], ct=a[2], aad=a[3], tag=a[4])
            good, bad = st.copy(), st.copy()
            pt = eng.fresh(good, fr, "pt")
            set_len(pt, length(a[2]))
            eng.event(good, fr, "decrypted", plain=pt)
            out.append((good, ok(rty, pt)))
        eng.event(bad, fr, "aead_failed", what=name)
        e = mk("sym", ("aead_err", name))
        out.append((bad, err(rty, e)))
        return out
    return h


CIPH = {"encrypt": aead("encrypt"), "decrypt": aead("decrypt")}


# ---------------------------------------------------------------------- signatures
_CTOR = {}


def ctor_rng(p, name):
    """the generator type a parameterless constructor of the signer installs"""
    if name in _CTOR:
        return _CTOR[name]
    src = "?"
    fs = [f for f in p.j["fns"] if f.get("bl") and f["local"] and f["k"] == "item" and f["argc"] == 0 and (f["d"] == name or f["d"].endswith("::" + name))]
    if len(fs) == 1:
        try:
            import lanes
            e = lanes.LaneEngine(p)
            (s, v), = e.run_fn(fs[0], [], St(), e.ctx(0, 0, fs[0]["id"]), 0, False)
            v = e.load_all(s, v)
            ts = {p.T[x.a[0]].get("d", "?").split("::")[-1] for x in ([e.load_all(s, y) for y in v.a[2:]] if v.op == "agg" else []) if x.op == "agg"}
            if len(ts) == 1:
                src = ts.pop()
        except Exception:
            pass
    _CTOR[name] = src
    return src


def ec_sign(eng, fr, b, st, f, vals, rty, atys):
    r, g = th_self(eng, st, vals[0])
    src = "?"
    if g.op == "agg":
        for x in g.a[2:]:
            y = eng.load_all(st, x)
            if y.op == "agg":
                src = eng.p.T[y.a[0]].get("d", "?").split("::")[-1]
    if src == "?" and g.op == "app" and len(g.a) == 1:
        src = ctor_rng(eng.p, g.a[0])
    key, h = cont(eng, st, vals[1]), cont(eng, st, vals[2])
    eng.event(st, fr, "sign", key=key, hash=h, src=src)
    good, bad = st.copy(), st.copy()
    v = eng.fresh(good, fr, "sig")
    sig = mk("app", "sig", key, h, v)
    return [(good, ok(rty, sig)), (bad, err(rty, mk("sym", ("sign_err",))))]


def ec_verify(eng, fr, b, st, f, vals, rty, atys):
    pk, sig, h = [eng.deep(st, cont(eng, st, v)) for v in vals]
    t = mk("app", "ecdsa_verify", pk, sig, h)
    eng.event(st, fr, "verify", key=pk, sig=sig, hash=h, val=t)
    return one(st, t)


def to_hex(eng, fr, b, st, f, vals, rty, atys):
    return one(st, mk("app", "to_hex", cont(eng, st, vals[0])))


# ---------------------------------------------------------------------- sockets, files, output
def is_tcp(eng, ty):
    t = eng.p.T[deref_ty(eng, ty)]
    return t.get("d", "").endswith("TcpStream")


def io_err():
    return mk("sym", ("io_err",))


def tcp_read(eng, fr, b, st, f, vals, rty, atys):
    r = mref(eng, st, vals[1])
    if r.op == "ref":
        r = mk("slm", I(0), length(eng.load(st, r)), *r.a)
    L = sub(r.a[1], r.a[0]) if r.op == "slm" else length(cont(eng, st, r))
    bad = st.copy()
    eng.mark_io()
    data = eng.fresh(st, fr, "rx")
    set_len(data, L)
    n = eng.fresh(st, fr, "rxn")
    old = eng.load(st, r)
    eng.store(st, r, data)
    eng.event(st, fr, "tcp_read", data=data, n=n)
    eng.event(bad, fr, "tcp_read_failed")
    bad.settag("iofail", 1)
    return [(st, ok(rty, n)), (bad, err(rty, io_err()))]


def tcp_write(partial):
    def h(eng, fr, b, st, f, vals, rty, atys):
        if not is_tcp(eng, atys[0]):
            c = cont(eng, st, vals[1])
            eng.event(st, fr, "file_write", to=eng.p.tname(deref_ty(eng, atys[0])), recv=eng.deep(st, vals[0]), data=c)
            t = mk("sym", ("file_result",))
            return one(st, mk("app", "file_write", t))
        c = cont(eng, st, vals[1])
        eng.event(st, fr, "tcp_write", data=c, partial=partial)
        good, bad = st.copy(), st.copy()
        bad.settag("iofail", 1)
        eng.event(bad, fr, "tcp_write_failed", data=c)
        if partial:
            n = eng.fresh(good, fr, "txn")
            v = ok(rty, n)
        else:
            v = ok(rty, unit(eng))
        return [(good, v), (bad, err(rty, io_err()))]
    return h


io_write_all = tcp_write(False)


def tcp_accept(eng, fr, b, st, f, vals, rty, atys):
    R = eng.p.T[rty]
    bad = st.copy()
    s, a = mk("sym", ("sock",)), mk("sym", ("addr",))
    return [(st, ok(rty, mk("agg", R["args"][0], 0, s, a))), (bad, err(rty, io_err()))]


def write_fmt(eng, fr, b, st, f, vals, rty, atys):
    if is_tcp(eng, atys[0]):
        eng.event(st, fr, "tcp_write", data=eng.deep(st, vals[1]), partial=False)
    else:
        eng.event(st, fr, "file_write", to=eng.p.tname(deref_ty(eng, atys[0])), recv=eng.deep(st, vals[0]), data=eng.deep(st, vals[1]))
    return one(st, mk("app", "write_fmt", mk("sym", ("file_result",))))


def do_print(eng, fr, b, st, f, vals, rty, atys):
    eng.event(st, fr, "print", args=[eng.deep(st, v) for v in vals])
    return one(st, unit(eng))


def log_level(eng, fr, b, st, f, vals, rty, atys):
    if eng.logs:
        return one(st, mk("app", "loglevel", vals[0]))
    return one(st, T0)


EXT = {
    "<std::net::TcpStream as std::io::Read>::read": tcp_read,
    "<std::net::TcpStream as std::io::Write>::write": tcp_write(True),
    "<&std::net::TcpStream as std::io::Read>::read": tcp_read,
    "<&std::net::TcpStream as std::io::Write>::write": tcp_write(True),
    "std::net::TcpListener::accept": tcp_accept,
    "std::io::Write::write_fmt": write_fmt,
}
LOCAL = {
    "sha256::sha256": hash_fn(32),
    "sha384::sha384": hash_fn(48),
    "Hkdf::expand": hkdf_expand,
    "bytes::to_hex": to_hex,
    "Ecdsa::sign": ec_sign,
    "Ecdsa::verify": ec_verify,
    "log::check_log_level": log_level,
}
for _n, _h in (("new", hmac_new), ("update", hmac_update), ("result", hmac_result)):
    LOCAL["Hmac::%s" % _n] = _h
EVENT_LOCAL = {"Ecdsa::sign", "Ecdsa::verify"}


# ---------------------------------------------------------------------- entry points
ENTRY = {"client": "ClientConnection::connect", "server": "ServerConnection::accept"}


def entry(eng, prog, side):
    """(function, arguments, term of the configuration, its type)"""
    f = prog.one(ENTRY[side])
    args = []
    conf = None
    for i in range(f["argc"]):
        ty = f["lt"][1 + i]
        t = prog.T[ty]
        inner = t["e"] if t["k"] == "ref" else ty
        T = prog.T[inner]
        name = T.get("d", "?").split("::")[-1]
        v = eng.param(side + ":" + name)
        if T["k"] == "adt" and T["local"]:
            if name.endswith("Config"):
                conf = (v, inner)
            else:
                for j, (fn, fty) in enumerate(T["v"][0]["f"]):
                    if prog.T[fty].get("d", "").split("::")[-1].endswith("Config"):
                        conf = (mk("fld", v, 0, j), fty)
        args.append(mk("vref", v) if t["k"] == "ref" else v)
    if conf is None:
        raise Bug("anchor not found: configuration of " + ENTRY[side])
    return f, args, conf[0], conf[1]


def scenarios(prog, side):
    """exhaustive case split over the optional parts of the configuration, so that the cases can run in parallel"""
    eng = TlsEngine(prog)
    f, args, c, ty = entry(eng, prog, side)
    out = [[]]
    for j, (fn, fty) in enumerate(prog.T[ty]["v"][0]["f"]):
        T = prog.T[fty]
        if T["k"] == "adt" and T["a"] == "enum" and 2 <= len(T["v"]) <= 3 and len(out) < 16 and fn != "server_name":
            out = [o + [(j, fn, v["d"], v["n"])] for o in out for v in T["v"]]
    if side == "client":
        # the negotiated suite is one value of its enumeration, decided by the peer's ServerHello
        for i, t in enumerate(prog.T):
            if t["k"] == "adt" and t["a"] == "enum" and t["local"] and t["d"].split("::")[-1] == "CipherSuite":
                out = [o + [("type", i, v["d"], v["n"])] for o in out for v in t["v"]]
                break
    return out


def run_entry(eng, prog, side, scen=()):
    f, args, c, ty = entry(eng, prog, side)
    st = St()
    st.settag("phase", 0)
    for j, fn, d, n in scen:
        if j == "type":
            eng.split_types[fn] = d
            continue
        eng.setfact(st, mk("discr", mk("fld", c, 0, j)), d)
    return eng.run_fn(f, args, st, eng.ctx(0, 0, f["id"]), 0, False), f


def run_client(eng, prog):
    return run_entry(eng, prog, "client")


def run_server(eng, prog):
    return run_entry(eng, prog, "server")
