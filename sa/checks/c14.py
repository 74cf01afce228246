"""Abstract interpretation of both roles against hellos whose layout is known and whose code points are constrained only
by what they are not: with every listed version different from 0x0304 (suite from s, share group from g, signature scheme
from the server's), no ServerHello (of suite s, with a share of group g) may be written, and the client may not derive
keys. With the suite known, cipher, key length and hash of everything protected afterwards are those of that suite."""
import itertools
from local import *
from lanes import *
import monitors as MO
import tls_model
from run import parallel
from checks.c16 import Net, NetTls, Unknown
from checks.c20 import P, Open, Wrong

TECHNIQUE = "abstract interpretation of MIR over hellos with partially known code points (disequality facts), wire in to wire out"
RULE = ("all listed versions != 0x0304, or all listed suites != s, or all shares' groups != g, or all schemes != ecdsa_secp256r1_sha256 "
        "=> no ServerHello (with s, g) is written; ServerHello version != 0x0304, suite or group not in the sent ClientHello => the client "
        "never decrypts; suite s => cipher, key length and hash of s, and the key share used is one of the selected group")
ASSUME = ["layouts of hellos (order, number and presence of extensions, vector lengths) are enumerated; code points are not"]

SUITES = {0x1301: ("AES_128_GCM", 16, 32), 0x1302: ("AES_256_GCM", 32, 48), 0x1303: ("CHACHA20_POLY1305", 32, 32)}
V13, X25519, ECDSA = 0x0304, 0x001d, 0x0403


def sy(n):
    return mk("sym", ("peer", n))


def u(n, w):
    return [I(x) for x in n.to_bytes(w, "big")]


def cat(*xs):
    s = seq_of([])
    for x in xs:
        if type(x) is list:
            x = seq_of([I(y) if type(y) is int else y for y in x])
        s = concat(s, x)
    return s


def vec(w, *xs):
    b = cat(*xs)
    return cat(u(length(b).a[0], w), b)


class Facts:
    """the code points of a layout that are constrained to differ from given values"""
    pick = None

    def __init__(self):
        self.ne = []

    def other(self, name, vals, how):
        """a code point different from all of vals: how = 0: its high byte differs from all of theirs, 1: the high byte is
        that of the first one and the low byte differs from all low bytes"""
        if Facts.pick:
            v = Facts.pick(name, vals)
            return [v >> 8, v & 255]
        if how == 0:
            h, l = sy(name + ".h"), sy(name + ".l")
            self.ne.append((h, {v >> 8 for v in vals}))
        else:
            h, l = I(vals[0] >> 8), sy(name + ".l")
            self.ne.append((l, {v & 255 for v in vals}))
        self.ne.append((mk_lanes([l, h], 2), set(vals)))
        return [h, l]

    def set(self, eng, st):
        for t, vs in self.ne:
            eng.setfact(st, t, frozenset(vs))


def cp(t):
    q = syms(t)
    return q and all(type(x.a[0]) is tuple and x.a[0][0] == "peer" for x in q)


class HelloTls(NetTls):
    """paths that know different code points of the peer are kept apart until the hello is answered"""
    def is_event_fn(self, f):
        return super().is_event_fn(f) or (f["local"] and f.get("bl") and ("::net::" in f["d"] or "ciphersuite" in f["d"]))

    def setfact(self, st, t, v):
        super().setfact(st, t, v)
        if type(v) is int and t.op == "lanes" and cp(t):
            self.stats.setdefault("cps", set()).add(v)
        if type(v) is int and t.op in ("lanes", "sym", "discr", "eq", "app", "fld") and cp(t):
            st.settag(("cp", t.id), v + 1)


def forget(st):
    for k in [k for k in st.mem if type(k) is tuple and k[0] == "mon" and type(k[1]) is tuple and k[1][0] == "cp"]:
        del st.mem[k]


class Hello(Net):
    """the peer's records: their contents as terms"""
    def __init__(self, recs):
        parts, self.bounds, pos = [], [], 0
        for typ, body in recs:
            n = length(body).a[0]
            parts += [cat([typ, 3, 3], u(n, 2)), body]
            self.bounds.append((pos, pos + 5 + n))
            pos += 5 + n
        self.total = pos
        self.stream = cat(*parts)
        self.cuts = [b for a, b in self.bounds]


def ext(t, *xs):
    return cat(u(t, 2), vec(2, *xs))


def client_hello(suites, exts, sid=32):
    return cat([1], vec(3, [3, 3], arr("peer.random", 32), vec(1, *([arr("peer.sid", sid)] if sid else [])), vec(2, *suites), [1, 0], vec(2, *exts)))


def server_hello(suite, exts, sid=32):
    return cat([2], vec(3, [3, 3], arr("peer.random", 32), vec(1, *([arr("peer.sid", sid)] if sid else [])), suite, [0], vec(2, *exts)))


def share(group, name, n=32):
    return cat(group, vec(2, arr("peer.share." + name, n)))


# ---------------------------------------------------------------------- reading the hellos written
def hello_of(data, look, typ):
    """(cursor behind the session id) of the hello in the first record of what is written, or None"""
    p = P(data, look, "record")
    if p.empty() is not False:
        return None
    t = p.byte()
    if t.op != "i" or t.a[0] != 22:
        return None
    p.skip(2)
    b = p.vec(2, "fragment")
    t = b.byte()
    if t.op != "i" or t.a[0] != typ:
        return None
    h = b.vec(3, "hello")
    h.skip(2)
    h.name = "random"
    h.take(I(32))
    h.vec(1, "session_id")
    return h


def num(bs):
    if any(b.op != "i" for b in bs):
        raise Open("code point %s" % [show(b)[:60] for b in bs])
    return int.from_bytes(bytes(b.a[0] & 255 for b in bs), "big")


def exts_of(h):
    out = {}
    e = h.vec(2, "extensions")
    while e.empty() is False:
        t = num(e.skip(2))
        out[t] = e.vec(2, "extension %d" % t)
    return out


def read_server_hello(data, look):
    h = hello_of(data, look, 2)
    if h is None:
        return None
    suite = num(h.skip(2))
    h.skip(1)
    x = exts_of(h)
    ver = num(x[43].skip(2)) if 43 in x else None
    grp = num(x[51].skip(2)) if 51 in x else None
    return suite, ver, grp


def read_client_hello(data, look):
    h = hello_of(data, look, 1)
    if h is None:
        return None
    v = h.vec(2, "cipher_suites")
    suites = []
    while v.empty() is False:
        suites.append(num(v.skip(2)))
    h.vec(1, "compression")
    x = exts_of(h)
    groups, vers = [], []
    if 51 in x:
        v = x[51].vec(2, "client_shares")
        while v.empty() is False:
            groups.append(num(v.skip(2)))
            v.vec(2, "share")
    if 43 in x:
        v = x[43].vec(1, "versions")
        while v.empty() is False:
            vers.append(num(v.skip(2)))
    return suites, groups, vers


# ---------------------------------------------------------------------- what is watched
class Watch(MO.Mon):
    """the hellos written, and everything protected: what ends the run early is recorded, too"""
    def __init__(self, side, sc):
        super().__init__(side, sc)
        self.hellos, self.prot, self.open = [], [], []

    def on_tcp_write(self, eng, st, fr, data, **ev):
        def look(t):
            r = st.facts.get(t)
            return r if type(r) is int else None
        try:
            h = (read_server_hello if self.side == "server" else read_client_hello)(eng.load_all(st, data), look)
        except (Open, Wrong) as x:
            self.open.append(str(x))
            return
        if h and h not in self.hellos:
            self.hellos.append(h)

    def on_encrypt(self, eng, st, fr, recv, key, **ev):
        forget(st)
        self.prot.append((eng.load_all(st, recv), eng.load_all(st, key)))

    def on_decrypt(self, eng, st, fr, recv, key, **ev):
        forget(st)
        self.prot.append((eng.load_all(st, recv), eng.load_all(st, key)))


def run_role(p, side, sc, recs, facts=None):
    m = Watch(side, [])
    m.prog = p
    e = HelloTls(p, [m], logs=False)
    e.max_blocks = 3000000
    e.net = Hello(recs)
    f, args, c, ty = tls_model.entry(e, p, side)
    st = St()
    st.settag("phase", 0)
    for j, fn, d, n in sc:
        if j != "type":
            e.setfact(st, mk("discr", mk("fld", c, 0, j)), d)
    if facts:
        facts.set(e, st)
    e.run_fn(f, args, st, e.ctx(0, 0, f["id"]), 0, False)
    return m, e


NEAR = {V13: [0x0303, 0x0302, 0x0305, 0x0403, 0x0404, 0x7f1c, 0x0a0a, 0x0300, 0xff04, 0x0004],
        X25519: [0x17, 0x18, 0x19, 0x1e, 0x100, 0x104, 0x1d00, 0x0a0a, 0x11d, 0x1c],
        ECDSA: [0x0503, 0x0603, 0x0203, 0x0401, 0x0804, 0x0304, 0x0807, 0x0a0a, 0x0407],
        0x1301: [0x1302, 0x1303, 0x1304, 0x1305, 0xff, 0x1300, 0x0113, 0xc02b, 0x0a0a]}


def confirmed(p, side, sc, mk_, bad, e):
    """an alarm raised where code points are only constrained is believed if constants in their place raise it as well"""
    recs, facts = mk_()[:2]
    if not facts or not facts.ne:
        return "the layout"
    vals = facts.ne[-1][1]
    near = next((NEAR[v] for v in NEAR if v in vals), [])
    cand = sorted(x for x in e.stats.get("cps", ()) if 0 <= x < 65536) + near
    names = sorted({q.a[0][1][:-2] for t, _ in facts.ne for q in syms(t)})
    for fill in ([None] + names if len(names) > 1 else [None]):
        for v in dict.fromkeys(cand):
            def pick(name, ne, v=v, fill=fill):
                w = v if fill in (None, name) else 0x5a5a
                while w in ne:
                    w += 0x101
                return w
            Facts.pick = pick
            try:
                recs = mk_()[0]
            finally:
                Facts.pick = None
            m, _ = run_role(p, side, sc, recs)
            if bad(m):
                return "e.g. %#06x" % v
    return None


def hash_of(key):
    return key.a[1] if key.op == "app" and key.a[0] == "expand" and type(key.a[1]) is int else key.a[1].a[0] if key.op == "app" and key.a[0] == "expand" and key.a[1].op == "i" else None


def cipher_of(p, recv):
    while recv.op in ("ref", "vref", "agg") and recv.op != "agg":
        recv = recv.a[0]
    if recv.op != "agg":
        return None
    d = p.T[recv.a[0]].get("d", "")
    return "AES" if "aes" in d.lower() or "gcm" in d.lower() else "CHACHA" if "poly1305" in d.lower() or "chacha" in d.lower() else None


def direct(key):
    """the symbols of a key other than through the transcript"""
    seen, todo, out = set(), [key], []
    while todo:
        t = todo.pop()
        if type(t) is not Term or t.id in seen:
            continue
        seen.add(t.id)
        if t.op == "app" and t.a[0] == "digest":
            continue
        if t.op == "sym":
            out.append(t)
        for a in t.a:
            todo += [a] if type(a) is Term else [x for x in a if type(x) is Term] if type(a) is tuple else []
    return out


def suite_used(ctx, p, side, s, prot, shares, what):
    """everything protected uses the cipher, key length and hash of suite s and none of the other shares"""
    name, klen, h = SUITES[s]
    for recv, key in prot:
        c, n, hh = cipher_of(p, recv), length(key), hash_of(key)
        if c and not name.startswith(c):
            ctx.v("suite/cipher/%s" % side, "%s: %s is negotiated, records are protected with %s (%s)" % (side, name, show(recv)[:60], what))
        if n.op == "i" and n.a[0] != klen:
            ctx.v("suite/key/%s" % side, "%s: %s is negotiated, the key has %d bytes (%s)" % (side, name, n.a[0], what))
        if hh and hh != h:
            ctx.v("suite/hash/%s" % side, "%s: %s is negotiated, the key schedule uses a hash of %d bytes (%s)" % (side, name, hh, what))
        for t in direct(key):
            q = t.a[0]
            if type(q) is tuple and q[0] == "arg" and str(q[1]).startswith("peer.share.") and str(q[1]) not in shares:
                ctx.v("share/%s" % side, "%s: the keys depend on %s, which is not of the negotiated group (%s)" % (side, q[1], what))
        ctx.n("protections compared with the suite")


# ---------------------------------------------------------------------- server
def server(ctx, label, sc, mk_):
    p = ctx.prog
    recs, facts, forbid, known, shares = mk_()
    m, e = run_role(p, "server", sc, recs, facts)
    ctx.n("hellos analysed")
    ctx.n("basic blocks interpreted", e.stats.get("blocks", 0))
    wrong = lambda m: [h for h in m.hellos if forbid(*h)]
    for s, v, g in wrong(m)[:1]:
        w = confirmed(p, "server", sc, mk_, wrong, e)
        if not w:
            ctx.incomplete.append("server, %s: answered with %#06x/%s/%s on a path that constants do not confirm" % (label, s, v and hex(v), g and hex(g)))
        else:
            ctx.v("server/" + label.split(":")[0], "the server answers %s with a ServerHello of suite %#06x, version %s, group %s (%s)" %
                  (label, s, v and hex(v), g and hex(g), w))
    for s, v, g in m.hellos:
        if v != V13:
            ctx.v("server/selected version", "the ServerHello answering %s selects version %s" % (label, v and hex(v)))
    if m.open and not m.hellos:
        ctx.incomplete.append("server %s: %s" % (label, m.open[0]))
    if known is not None:
        if not m.hellos:
            ctx.incomplete.append("server %s: no ServerHello" % label)
        suite_used(ctx, p, "server", known, m.prot, shares, label)
    ctx.sample("server, %s: %s" % (label, ["%#06x/%s/%s" % (s, v and hex(v), g and hex(g)) for s, v, g in m.hellos] or "no ServerHello"))


GREASE = [[0x0a, 0x0a]]
P13, PX, PS = list(V13.to_bytes(2, "big")), list(X25519.to_bytes(2, "big")), list(ECDSA.to_bytes(2, "big"))


def server_layouts(th):
    """(label, builder) of the client hellos analysed"""
    good_s = [[0x13, 0x01], [0x13, 0x02], [0x13, 0x03]]

    def order(x, k):
        return list(itertools.permutations(x))[k % 6]

    def build(suites=None, vers=None, shares=None, schemes=None, k=0, sid=32, extra=()):
        x = []
        if vers != "absent":
            x.append(ext(43, vec(1, *(vers if vers is not None else [P13]))))
        if shares != "absent":
            x.append(ext(51, vec(2, *(shares if shares is not None else [share(PX, "x")]))))
        if schemes != "absent":
            x.append(ext(13, vec(2, *(schemes if schemes is not None else [PS]))))
        if len(x) == 3:
            x = list(order(x, k))
        return [(22, client_hello(suites if suites is not None else good_s, list(extra) + x, sid)), (23, arr("peer.rest", 40))]

    always = lambda s, v, g: True
    never = lambda s, v, g: False
    for how in itertools.chain([(0,), (1,), (0, 0), (1, 1), (0, 1), (1, 0)], [(0, 0, 0), (1, 1, 1), (1, 0, 1)] if th else []):
        n = len(how)

        def versions(how=how):
            F = Facts()
            return build(vers=[F.other("v%d" % i, [V13], h) for i, h in enumerate(how)], k=len(how)), F, always, None, ()
        yield "version: %d listed, none 0x0304, form %s" % (n, how), versions

        def schemes(how=how):
            F = Facts()
            return build(schemes=[F.other("s%d" % i, [ECDSA], h) for i, h in enumerate(how)], k=3), F, always, None, ()
        yield "signature scheme: %d listed, none ecdsa_secp256r1_sha256, form %s" % (n, how), schemes

        def groups(how=how):
            F = Facts()
            return build(shares=[share(F.other("g%d" % i, [X25519], h), "other%d" % i, 32 + 33 * (i % 2)) for i, h in enumerate(how)], k=4), F, \
                lambda s, v, g: g in (X25519, None), None, ()
        yield "group: %d shares, none X25519, form %s" % (n, how), groups

        for s in SUITES:
            def suites(how=how, s=s):
                F = Facts()
                return build(suites=[F.other("c%d" % i, [s], h) for i, h in enumerate(how)], k=5), F, lambda x, v, g, s=s: x == s, None, ()
            yield "suite: %d listed, none %#06x, form %s" % (n, s, how), suites
        if n <= 2:
            def nosuite(how=how):
                F = Facts()
                return build(suites=[F.other("c%d" % i, list(SUITES), h) for i, h in enumerate(how)] + ([[0, 0xff]] if len(how) > 1 else [])), F, always, None, ()
            yield "suite: %d listed, none of TLS 1.3's, form %s" % (n, how), nosuite
    for k, (what, kw) in enumerate([("no versions", dict(vers=[])), ("no shares", dict(shares=[])), ("no schemes", dict(schemes=[])), ("no suites", dict(suites=[])),
                                    ("only the renegotiation suite", dict(suites=[[0, 0xff]])),
                                    ("no supported_versions", dict(vers="absent")), ("no key_share", dict(shares="absent")), ("no signature_algorithms", dict(schemes="absent")),
                                    ("no supported_versions but TLS 1.3 suites and groups", dict(vers="absent", extra=[ext(10, vec(2, PX))])),
                                    ("X25519 among the groups, but no share", dict(shares="absent", extra=[ext(10, vec(2, PX))]))]):
        for sid in (0, 32):
            def absent(kw=kw, sid=sid):
                return build(sid=sid, **kw), None, always, None, ()
            yield "missing %s: session id of %d bytes" % (what, sid), absent

    def nothing():
        return build(vers="absent", shares="absent", schemes="absent"), None, always, None, ()
    yield "missing all extensions: -", nothing

    # a usable share behind (or before) others: the keys must come from it
    for pos in range(3):
        for how in (0, 1):
            def behind(pos=pos, how=how):
                F = Facts()
                x = [share(F.other("g%d" % i, [X25519], how), "other%d" % i, (32, 65, 56)[i]) for i in range(2)]
                x.insert(pos, share(PX, "x"))
                return build(shares=x, suites=[[0x13, 0x01]]), F, lambda s, v, g: g != X25519, 0x1301, ("peer.share.x",)
            yield "share: X25519 is number %d of 3, form %d" % (pos, how), behind
    for s in SUITES:
        for k in range(6):
            def one(s=s, k=k):
                F = Facts()
                x = [[s >> 8, s & 255]]
                if k % 3:
                    x.insert(k % 2, F.other("c", list(SUITES), k % 2))
                return build(suites=x, k=k, vers=[F.other("v", [V13], k % 2), P13] if k % 2 else None), F, lambda c, v, g, s=s: c != s, s, ("peer.share.x",)
            yield "suite: only %#06x among those known, order %d" % (s, k), one


# ---------------------------------------------------------------------- client
def client(ctx, label, sc, mk_):
    p = ctx.prog
    recs, facts, known = mk_()
    m, e = run_role(p, "client", sc, recs, facts)
    ctx.n("hellos analysed")
    ctx.n("basic blocks interpreted", e.stats.get("blocks", 0))
    if known is None:
        if m.prot:
            recv, key = m.prot[0]
            w = confirmed(p, "client", sc, mk_, lambda m: m.prot, e)
            if not w:
                ctx.incomplete.append("client, %s: goes on, on a path that constants do not confirm" % label)
            else:
                ctx.v("client/" + label.split(":")[0], "the client goes on after %s: records are protected with %s (%s)" % (label, show(recv)[:80], w))
    else:
        if not m.prot:
            ctx.incomplete.append("client %s: nothing decrypted" % label)
        suite_used(ctx, p, "client", known, m.prot, ("peer.share.x",), label)
    ctx.sample("client, %s: %s" % (label, "%d protections" % len(m.prot) if m.prot else "never protects a record"))


def client_layouts(suites, groups, th):
    def build(suite=None, ver=P13, shr=None, k=0, sid=32, extra=(), dup=None):
        x = []
        if ver is not None:
            x.append(ext(43, ver))
        if shr is None:
            shr = share(PX, "x")
        if shr != "absent":
            x.append(ext(51, shr))
        if k % 2:
            x.reverse()
        return [(22, server_hello(suite or [suites[0] >> 8, suites[0] & 255], list(extra) + x, sid)), (23, arr("peer.rest", 60))]

    for how in (0, 1):
        for k in (0, 1):
            def ver(how=how, k=k):
                F = Facts()
                return build(ver=F.other("v", [V13], how), k=k), F, None
            yield "version: 0x0304 is not selected, form %d.%d" % (how, k), ver

            def grp(how=how, k=k):
                F = Facts()
                return build(shr=share(F.other("g", groups, how), "other", (32, 65)[k]), k=k), F, None
            yield "group: a share of a group not offered, form %d.%d" % (how, k), grp

            def sui(how=how, k=k):
                F = Facts()
                return build(suite=F.other("c", suites, how), k=k), F, None
            yield "suite: one not offered, form %d.%d" % (how, k), sui
    for g in (0x17, 0x18, 0x19, 0x1e, 0x100, 0x101, 0x102, 0x103, 0x104):
        if g not in groups:
            def grp(g=g):
                return build(shr=share(list(g.to_bytes(2, "big")), "other")), None, None
            yield "group: share of group %#06x, not offered" % g, grp
    for s in (0x1301, 0x1302, 0x1303, 0x1304, 0x1305, 0x00ff):
        if s not in suites:
            def sui(s=s):
                return build(suite=[s >> 8, s & 255]), None, None
            yield "suite: %#06x, not offered" % s, sui
    for sid in (0, 32):
        for what, kw in (("supported_versions", dict(ver=None)), ("key_share", dict(shr="absent")), ("both", dict(ver=None, shr="absent"))):
            def absent(kw=kw, sid=sid):
                return build(sid=sid, **kw), None, None
            yield "missing %s: session id of %d bytes" % (what, sid), absent
    for s in suites:
        if s in SUITES:
            for k in (0, 1):
                def one(s=s, k=k):
                    return build(suite=[s >> 8, s & 255], k=k, extra=[ext(0x0a0a, [0])] if k else ()), None, s
                yield "suite: %#06x, order %d" % (s, k), one


def work(ctx, side, i, sc, arg):
    try:
        if side == "server":
            label, b = list(server_layouts(ctx.tier == "thorough"))[i]
            server(ctx, label, sc, b)
        else:
            label, b = list(client_layouts(*arg, ctx.tier == "thorough"))[i]
            client(ctx, label, sc, b)
    except Unknown as x:
        ctx.incomplete.append("%s %d: %s" % (side, i, x))


def run(ctx):
    p = ctx.prog
    th = ctx.tier == "thorough"
    jobs = []
    scs = tls_model.scenarios(p, "server")
    scs = [scs[0], scs[-1]] if th else scs[:1]
    n = len(list(server_layouts(th)))
    for sc in scs:
        jobs += [("server", i, sc, None) for i in range(n)]
    ctx.n("client hello layouts", n)
    # what the client offers
    seen = set()
    cl = []
    for sc in tls_model.scenarios(p, "client"):
        sc = [x for x in sc if x[0] != "type"]
        k = tuple(x[2] for x in sc)
        if k not in seen:
            seen.add(k)
            cl.append(sc)
    cl = [cl[0], cl[-1]] if th else cl[:1]
    for sc in cl:
        m, e = run_role(p, "client", sc, [(21, cat([2, 40]))])
        if not m.hellos:
            ctx.incomplete.append("client: no ClientHello read (%s)" % m.open[:1])
            continue
        for suites, groups, vers in m.hellos:
            if not suites or not groups:
                ctx.incomplete.append("client: suites %s, groups %s offered" % (suites, groups))
                continue
            if vers != [V13]:
                ctx.v("client/offered versions", "the ClientHello offers the versions %s" % [hex(v) for v in vers])
            ctx.sample("the client offers the suites %s, the groups %s, the versions %s" % tuple([hex(x) for x in y] for y in (suites, groups, vers)))
            n = len(list(client_layouts(suites, groups, th)))
            ctx.n("server hello layouts", n)
            jobs += [("client", i, sc, (suites, groups)) for i in range(n)]
    parallel(ctx, work, jobs)
    ctx.floor("hellos analysed", 60)
